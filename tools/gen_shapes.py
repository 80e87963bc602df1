#!/usr/bin/env python3
"""Writes harness/shapes_*.inc: message templates. A template fixes the bytes
that decide the structure (so that symbolic execution keeps positions concrete)
and leaves every other byte symbolic (Y). Each template is one SHAPE(...) case."""
import os, itertools
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
Y = "Y"
def el(*b): return list(b)
def ys(n): return [Y] * n

# one element of every encoding, payload symbolic
SCALARS = [el(0x07), el(0x7f), el(0xe0), el(0xff), el(0xc0), el(0xc2), el(0xc3), el(0xca, *ys(4)), el(0xcb, *ys(8)),
           el(0xcc, Y), el(0xcd, *ys(2)), el(0xce, *ys(4)), el(0xcf, *ys(8)),
           el(0xd0, Y), el(0xd1, *ys(2)), el(0xd2, *ys(4)), el(0xd3, *ys(8))]
STRS = [el(0xa0), el(0xa1, Y), el(0xa3, *ys(3)), el(0xd9, 0), el(0xd9, 2, *ys(2)), el(0xda, 0, 1, Y), el(0xdb, 0, 0, 0, 2, *ys(2))]
BINS = [el(0xc4, 0), el(0xc4, 2, *ys(2)), el(0xc5, 0, 1, Y), el(0xc6, 0, 0, 0, 1, Y)]
EXTS = [el(0xd4, Y, Y), el(0xd5, Y, *ys(2)), el(0xd6, Y, *ys(4)), el(0xd7, Y, *ys(8)), el(0xd8, Y, *ys(16)),
        el(0xc7, 0, Y), el(0xc7, 3, Y, *ys(3)), el(0xc8, 0, 1, Y, Y), el(0xc9, 0, 0, 0, 1, Y, Y)]
EMPTY = [el(0x90), el(0x80), el(0xdc, 0, 0), el(0xdd, 0, 0, 0, 0), el(0xde, 0, 0), el(0xdf, 0, 0, 0, 0)]
RES = [el(0xc1)]
ALL = SCALARS + STRS + BINS + EXTS + EMPTY
FEW = [el(0x07), el(0xcd, Y, Y), el(0xa1, Y), el(0xc4, 1, Y), el(0xd4, Y, Y), el(0x90), el(0xc0)]

def arr(*k):
    return [0x90 + len(k)] + sum(k, [])
def mp(*k):
    return [0x80 + len(k) // 2] + sum(k, [])

# open lengths: a symbolic length or count at the end of the message
OPEN = [[0xd9, Y, Y, Y], [0xda, Y, Y, Y], [0xdb, Y, Y, Y, Y, Y, Y], [0xc4, Y, Y, Y], [0xc5, Y, Y, Y], [0xc6, Y, Y, Y, Y, Y, Y],
        [0xc7, Y, Y, Y], [0xc8, Y, Y, Y, Y], [0xc9, Y, Y, Y, Y, Y, Y],
        [0xa2, Y], [0xbf, Y, Y]]
# declared counts around every boundary, followed by fewer or more bytes
COUNTS16 = [1, 2, 3, 15, 16, 255, 256, 0x7fff, 0x8000, 0xffff]
COUNTS32 = COUNTS16[:4] + [0xffff, 0x10000, 0x55555555, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaab, 0xfffffffe, 0xffffffff]
def be(v, n): return list(v.to_bytes(n, "big"))
COUNTS = [[0x8f, 7, 7], [0x9f, 7]]
for c in COUNTS16:
    COUNTS += [[0xdc] + be(c, 2) + [7, 7], [0xde] + be(c, 2) + [7, 7]]
for c in COUNTS32:
    COUNTS += [[0xdd] + be(c, 4) + [7, 7], [0xdf] + be(c, 4) + [7, 7]]
for c in (0x7fffffff, 0x80000000, 0xffffffff):
    COUNTS += [[0x91, 0xdd] + be(c, 4) + [7], [0x92, 7, 0xdf] + be(c, 4) + [7, 7], [0x92, 0xdf] + be(c, 4) + [7, 7, 7]]

def prefixes(m):
    return [m[:i] for i in range(len(m))]
def uniq(l):
    out = []
    for m in l:
        if m not in out: out.append(m)
    return out

single = uniq([[]] + ALL + RES + [m + [Y] for m in ALL])            # complete single elements, and with trailing bytes
trunc = uniq(sum([prefixes(m)[1:] for m in ALL], []))                # every truncation of them
open_ = uniq(OPEN + [[0x91] + m for m in OPEN])
nest = []
for a in FEW + RES:
    nest.append(arr(a))
    nest.append(arr(arr(a)))
    nest.append(mp(a, el(0x07)))
    for b in FEW:
        nest.append(arr(a, b))
        nest.append(mp(a, b))
for a in ALL: nest.append(arr(a))
nest = uniq(nest)
deep = [arr(arr(arr(el(7)))), arr(arr(arr(arr(el(0xa1, Y))))), mp(el(7), mp(el(8), mp(el(9), el(0xcc, Y)))), arr(mp(el(7), arr(el(0xcc, Y), el(0xd0, Y)))),
        mp(arr(el(0xcc, Y)), arr(el(0xd0, Y))), arr(el(1), el(2), el(3), el(0xcc, Y)), arr(arr(el(1)), arr(el(0xcc, Y)), el(0xa1, Y)),
        arr(mp(), arr(), mp(el(0xa1, Y), arr(el(0xcc, Y)))), mp(el(0xa1, Y), el(1), el(0xa1, Y), el(0xcc, Y)),
        mp(el(0xa0), mp(), el(0xc0), arr(mp(el(1), el(0xcd, Y, Y)))), [0xdc, 0, 2] + el(0xcc, Y) + el(0xa1, Y), [0xde, 0, 1] + el(0xa1, Y) + el(0xcc, Y),
        [0xdd, 0, 0, 0, 1, 0xcc, Y], [0xdf, 0, 0, 0, 1, 0xa1, Y, 0xcc, Y], arr(el(0xcc, Y), arr(el(0xa2, Y, Y), mp(el(1), el(2))), el(0xc3)),
        arr(el(0xc1)), arr(arr(el(1), el(0xc1))), mp(el(1), el(0xc1))]
deep = uniq(deep + sum([prefixes(m)[1:] for m in deep[:8]], []))
msgs = uniq([m for m in ALL if len(m) <= 10] + [arr(a) for a in FEW] + [mp(a, b) for a, b in zip(FEW, FEW[1:])] + deep[:9])

stream = uniq([el(0xc0), el(0xcb, *ys(8)), arr(el(0xcd, Y, Y), el(0xd1, Y, Y)), el(0xa3, *ys(3)), el(0xd9, 2, Y, Y), el(0xc4, 2, Y, Y), el(0xc7, 3, Y, *ys(3)), el(0xd6, Y, *ys(4)),
    arr(arr(el(0xcc, Y))), mp(el(0xa1, Y), el(0xcc, Y)), [0xdc, 0, 2] + el(0xcc, Y) + el(0xd0, Y), arr(el(0xda, 0, 1, Y), el(0xdb, 0, 0, 0, 1, Y)),
    arr(el(0xc5, 0, 1, Y), el(0xc6, 0, 0, 0, 1, Y)), [0xde, 0, 1] + el(0xd4, Y, Y) + el(0x90), arr(el(0xce, *ys(4)), el(0xcf, *ys(8))), arr(el(0xd2, *ys(4)), el(0xca, *ys(4)), el(0x07)),
    mp(el(7), arr(el(0xa1, Y), mp(el(1), el(0xd0, Y)))), [0xdd, 0, 0, 0, 1] + el(0xd5, Y, Y, Y), [0xdf, 0, 0, 0, 1] + el(0xc8, 0, 1, Y, Y) + el(0xc9, 0, 0, 0, 1, Y, Y), arr(el(0x07), el(0xc1), el(1)), el(0xc1)])
streamt = [m[:-1] for m in stream if len(m) > 1 and 0xc1 not in m]   # one byte missing

# maps: keys of every kind, in maps of up to four entries
IK = [el(0x07), el(0xff), el(0xcc, Y), el(0xd0, Y), el(0xcd, Y, Y), el(0xcf, *ys(8)), el(0xd3, *ys(8))]
SK = [el(0xa0), el(0xa1, Y), el(0xa2, Y, Y), el(0xd9, 1, Y), el(0xda, 0, 2, Y, Y)]
OK = [el(0xc0), el(0xc3), el(0xc4, 1, Y), el(0xd4, Y, Y), el(0xca, *ys(4)), el(0xcb, *ys(8)), arr(el(0x07)), mp(el(0x07), el(0x08))]
VALS = [[1], [0xa1, 0x41], [0xc0], [0x91, 0x05], [0xc2], [0xc0], [0x80], [0xc3], [0xc0], [0xa0]]
mk_calls = 0
def mk(*keys):
    global mk_calls
    mk_calls += 1
    m = []
    for i, k in enumerate(keys): m += k + VALS[(mk_calls + i) % len(VALS)]
    return [0x80 + len(keys)] + m
maps = [mk()] + [mk(k) for k in IK + SK + OK]
for L in (IK, SK):
    for i, a in enumerate(L):
        for b in L[i:]: maps.append(mk(a, b))
maps_i = uniq([m for m in maps] + [mk(a, IK[3], b) for a in IK[2:4] for b in OK + SK[:2]] + [mk(IK[2], IK[3], IK[4]), mk(IK[2], OK[6], IK[3]), mk(IK[0], IK[1], IK[2], IK[3]), [0xde, 0, 2] + mk(IK[2], IK[5])[1:], [0xdf, 0, 0, 0, 2] + mk(IK[6], IK[3])[1:]])
maps_s = uniq(maps + [mk(a, SK[1], b) for a in SK[1:3] for b in OK + IK[:2]] + [mk(SK[1], SK[2], SK[3]), mk(SK[1], OK[6], SK[3]), mk(SK[0], SK[1], SK[3], SK[4]), [0xde, 0, 2] + mk(SK[2], SK[4])[1:], [0xdf, 0, 0, 0, 2] + mk(SK[1], SK[3])[1:]])

# documents: canonical encodings, for the writer
D_NUM = [0x07, 0xe1, 0xcc, 0x80, 0xd0, 0x80, 0xcd, 0x12, 0x34, 0xd1, 0x80, 0x01, 0xce, 0x81, 2, 3, 4, 0xd2, 0x81, 2, 3, 4, 0xcf, 0x91, 2, 3, 4, 5, 6, 7, 8, 0xd3, 0x91, 2, 3, 4, 5, 6, 7, 8]
D_FLT = [0xca, *ys(4), 0xcb, *ys(8), 0xc0, 0xc2, 0xc3]
D_STR = [0xa0, 0xa1, Y, 0xa4, *ys(4), 0xd9, 32, *ys(32)]
D_BIN = [0xc4, 0, 0xc4, 3, *ys(3), 0xc7, 0, Y, 0xc7, 3, Y, *ys(3), 0xd4, Y, Y, 0xd5, Y, *ys(2), 0xd6, Y, *ys(4), 0xd7, Y, *ys(8), 0xd8, Y, *ys(16)]
D_NEST = mp(el(0xa2, Y, Y), arr(el(1), mp(), arr(el(0xa1, Y)))) + arr() + arr(el(0xca, *ys(4)), el(0xc4, 1, Y))
D_A16 = [0xdc, 0, 16] + [0xa1, Y] * 16
D_M16 = [0xde, 0, 16] + [1, 2] * 16
D_S31 = [0xbf, *ys(31)]
D_B40 = [0xc4, 40, *ys(40)]
D_S70 = [0xd9, 70, *ys(70)]
D_B1 = arr(el(1), mp(el(0xa1, Y), arr(el(0xca, *ys(4)), el(2)), el(3), mp()), arr(), el(0xc4, 2, Y, Y))
D_B2 = mp(arr(el(7)), mp(el(8), arr(arr(el(0xa2, Y, Y)), el(9))))
D_B3 = arr(arr(arr(el(0xa1, Y)), el(1)), el(0xd4, Y, Y), arr(el(0xd9, 40, *ys(40)), mp(el(1), el(0xa3, Y, Y, Y))))
D_B4 = arr() + mp() + el(0xcb, *ys(8)) + arr(arr())
D_B5 = arr(*[el(0xa0)] * 15, ) 
D_B6 = [0xdc, 0, 16] + [0xa0] * 15 + mp(el(1), el(2))
bdocs = [D_B1, D_B2, D_B3, D_B4, D_B5, D_B6]
docs = [D_NUM, D_FLT, D_STR, D_BIN, D_NEST, D_A16, D_M16, D_S31, D_B40]

# strings, binaries and extensions of small and of huge declared lengths
datas = [el(0xa1, Y), el(0xa3, *ys(3)), el(0xc4, 2, *ys(2)), el(0xc7, 3, Y, *ys(3)), el(0xa0), el(0xd9, 0), el(0xd9, 3, *ys(3)), el(0xda, 0, 2, Y, Y), el(0xdb, 0, 0, 0, 2, *ys(2)),
    el(0xc4, 0), el(0xc5, 0, 3, *ys(3)), el(0xc6, 0, 0, 0, 1, Y), el(0xd4, Y, Y), el(0xd6, Y, *ys(4)), el(0xc7, 0, Y), el(0xc8, 0, 2, Y, *ys(2)), el(0xc9, 0, 0, 0, 1, Y, Y),
    el(0xc0), el(0xcc, Y), el(0x90), el(0xc1)]
# releasing memory: concrete text, so that control flow stays concrete
rel = [arr(el(0xa3, 0x61, 0x62, 0x63), el(0xc4, 2, Y, Y), el(0xc7, 2, 5, Y, Y), arr(el(1), el(0xcc, Y))),
    mp(el(0xa1, 0x61), el(0xd9, 3, 0xe2, 0x82, 0xac)), arr(el(0xa3, 0x61, 0xff, 0x62)), arr(el(0xa2, 0x61, 0)), arr(el(0xc4, 0), el(0xa0)), arr(el(0xd6, 9, *ys(4)), el(0xc1)), [0x92, 0xa5, 0x61], [0x91, 0xc4, 5, Y]]
# one of each kind of element, whole, cut short and too big, for every call
errs = [el(0xc0), el(0x07), el(0xf0), el(0xc3), el(0xca, *ys(4)), el(0xcb, *ys(8)), el(0xcc, Y), el(0xcf, *ys(8)), el(0xd0, Y), el(0xd3, *ys(8)), el(0xa1, 0x61), el(0xa2, 0x61, 0x62), el(0xa2, 0x61, 0xff), el(0xa2, 0x61, 0), el(0xa5, *[0x62] * 5), el(0xdb, *be(0xffffffff, 4), 1),
    el(0xa3, 0x61), el(0xc4, 2, Y, Y), el(0xc6, *be(0x7fffffff, 4), 1), el(0xd6, 0xff, *ys(4)), el(0xd7, 5, *ys(8)), el(0xd7, 0xff, *[0xff] * 4, Y), el(0xc7, 2, Y, Y, Y), el(0xc9, *be(0xffffffff, 4), Y), el(0x90), el(0x92, 1, 2), el(0xdd, *be(0xffffffff, 4)), el(0x81, 1, 2), el(0xdf, *be(0xfffffff0, 4), 1), el(0xc1), el(0xcd, Y), el(0xdc, 0)]
relt = [arr(el(0xa2, 0x61, 0x62), el(0xc4, 2, Y, Y), el(0xc7, 2, 5, Y, Y)), arr(arr(arr(arr(el(1), el(0xcc, Y))))), [0x9b] + [0xc0] * 9 + [0xcc, Y, 0xc3], arr(arr(el(1), el(2)), el(0xc1)),
    el(0xa2, 0x61, 0xff), mp(el(1), arr(arr(el(0xcc, Y)))), [0x92, 0x92, 1, 0xcd, Y]]
relw = [arr(el(1), mp(el(0xa1, 0x61), arr(el(0xca, *ys(4)), el(2))), el(0xc4, 2, Y, Y)), mp(arr(el(7)), mp(el(8), arr(arr(el(0xa2, Y, Y)), el(9)))), arr(arr(el(0xd9, 40, *ys(40))), el(0xd4, Y, Y)), arr(el(0xcb, *ys(8)), el(0xcb, *ys(8)), el(0xcb, *ys(8)), el(0xcb, *ys(8)))]
hugedatas = [el(0xdb, *be(c, 4), Y, Y) for c in (0x100, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff)] + [el(0xc6, *be(c, 4), Y) for c in (0x1000, 0x7fffffff, 0x80000000, 0xffffffff)] + [el(0xc9, *be(c, 4), Y, Y) for c in (0x1000, 0x7fffffff, 0xffffffff)] + [el(0xda, 0xff, 0xff, Y), el(0xd9, 0xff, Y), el(0xc4, 0xff, Y), el(0xbf, Y)]

def write(name, shapes):
    with open(os.path.join(OUT, "shapes_%s.inc" % name), "w") as f:
        f.write("/* generated by tools/gen_shapes.py: %d templates */\n" % len(shapes))
        for m in shapes:
            f.write("SHAPE(%s)\n" % ", ".join(x if x == Y else "0x%02x" % x for x in m))

def shard(name, shapes, k):
    for i in range(k): write("%s%d" % (name, i), shapes[i::k])

if __name__ == "__main__":
    write("single", [m for m in single if m])
    write("trunc", trunc)
    write("open", open_)
    shard("nest", nest, 2)
    write("counts", uniq(COUNTS))
    write("huge", [[h] + be(c, 4) + [7, 7] for h in (0xdb, 0xc6, 0xc9, 0xdd, 0xdf) for c in (0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000008, 0xfffffff0, 0xffffffff, 0x1000)] + [[0xdb, 0, 0, 0, 1, 7], [0xdb, Y, Y, Y, Y, 7]])
    write("deep", deep)
    write("pageone", [arr(arr(*[el(7)] * k), *[el(8)] * m) for k in range(1, 7) for m in (0, 1, 2, 3, 4)] + [arr(mp(*[el(7)] * (2 * k)), *[el(8)] * m) for k in (1, 2, 3) for m in (0, 1, 2)])
    write("pages", [arr(arr(*[el(x % 7) for x in range(k)]), *[el(7)] * m) for k in range(1, 8) for m in (0, 1, 2)] + [mp(el(1), mp(*[el(7)] * (2 * k))) for k in range(1, 4)]
        + [arr(arr(*[el(7)] * a), arr(*[el(8)] * b)) for a in (1, 2, 3, 4) for b in (2, 3, 4)] + [arr(el(1), arr(el(1), arr(*[el(7)] * k))) for k in (2, 3, 4, 5)])
    write("msgs", msgs)
    write("nums", SCALARS + [[0x00], [0x40], [0xe5], [0xf8], [0xa1, Y], [0xc4, 1, Y], [0xd4, Y, Y], [0x90], [0x80]])
    shard("mapsi", maps_i, 2); shard("mapss", maps_s, 2)
    A = el(0xa1, 0x61)
    write("chain", [arr(mp(el(7), el(0xa2, Y, Y)), arr(el(0xcc, Y), el(0xc0))), mp(A, arr(el(0xc4, 1, Y), el(0xd6, 0xff, *ys(4))), el(7), mp(el(8), el(0xc3), A, el(0xa1, Y))),
        mp(el(7), el(0xcb, *ys(8)), el(7), el(0xd0, Y)), mp(A, mp(A, el(1), A, el(2)), el(0xcc, 7), arr(el(0xc5, 0, 2, Y, Y))), arr(arr(el(0xa1, Y)), el(0xd0, Y)), [0x92, 0xc0], el(0xc1), [0x81, 0x07]])
    write("datas", datas); write("hugedatas", hugedatas)
    ts = [el(0xd6, Y, *ys(4)), el(0xd7, Y, *ys(8)), el(0xc7, 12, Y, *ys(12)), el(0xd4, Y, Y), el(0xd5, Y, *ys(2)), el(0xd8, Y, *ys(16))]
    ts += [el(0xc7, k, Y, *ys(k)) for k in (0, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17)] + [el(0xc8, 0, k, Y, *ys(k)) for k in (4, 8, 12)] + [el(0xc9, 0, 0, 0, k, Y, *ys(k)) for k in (4, 8, 12)]
    ts += [el(0xc8, 1, k, Y, *ys(k)) for k in (4, 8, 12)] + [el(0xc9, 1, 0, 0, k, Y, *ys(k)) for k in (4, 8, 12)]
    ts += [m[:-1] for m in ts[:3]] + [el(0xc0), el(0xa4, *ys(4)), el(0xc4, 8, *ys(8)), el(0xce, *ys(4)), el(0xd3, *ys(8)), el(0xff), el(0xc1), el(0xc7, 12)]
    write("ts", ts)
    keys = [el(0xa1, Y, Y), el(0x07), el(0xcc, Y), el(0xa0), el(0xa3, *ys(3)), el(0xd9, 1, Y), el(0xda, 0, 3, *ys(3)), el(0xdb, 0, 0, 0, 1, Y), el(0xa2, Y, Y, 7), el(0xa1), el(0xd9, 3, Y, Y),
        el(0x00), el(0xff), el(0xcd, Y, Y), el(0xce, *ys(4)), el(0xcf, *ys(8)), el(0xd0, Y), el(0xd1, *ys(2)), el(0xd2, *ys(4)), el(0xd3, *ys(8)), el(0xc0), el(0xc2), el(0xc3), el(0xca, *ys(4)), el(0xcb, *ys(8)),
        el(0xc4, 1, Y), el(0xd4, Y, Y), el(0xc7, 2, Y, Y, Y), el(0x90), el(0x92, 0xcc, Y, 0xa1, Y), el(0x81, 0xa1, Y, 0x91, 7), el(0x80), el(0xdc, 0, 1, 0xc0), el(0xdd, 0, 0, 0, 0), el(0xde, 0, 1, 7, 0xd0, Y), el(0xdf, 0, 0, 0, 0), el(0xc1), el(0x91), el(0xcd, Y), el(0x91, 0xc1)]
    write("keys", keys)
    write("arrays", [[0x90], [0x93, 7, Y, Y], [0x9f], [0xdc, 0, 2, Y, Y], [0xdc, 0xff, 0xff], [0xdd, 0, 0, 0, 5]] + [[0xdd] + be(c, 4) + [7] for c in (0, 0x1000, 0x10000, 0x03333334, 0x1fffffff, 0x20000000, 0x20000001, 0x55555555, 0x55555556, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff)]
        + [[0xc0], [0x81, 7, 7], [0xcc, Y], [0xa1, Y], [0xc1], [0xc3]])
    LONG = [el(0xd9, 40, *ys(40)), arr(el(0xc4, 34, *ys(34)), el(0xcd, Y, Y)), mp(el(0xbf, *ys(31)), el(0xc7, 35, Y, *ys(35))), el(0xda, 0, 70, *ys(70)), arr(el(0xd8, Y, *ys(16)), el(0xcf, *ys(8)), el(0xd8, Y, *ys(16)))]
    SHORT = [arr(el(0xa5, *ys(5)), el(0xcb, *ys(8)), el(0xc3)), mp(el(0xa2, Y, Y), arr(el(0xce, *ys(4)), el(0xd0, Y))), arr(el(0xd3, *ys(8)), el(0xca, *ys(4)), el(0xd1, Y, Y), el(0xc0)),
        el(0xc8, 0, 2, Y, Y, Y), [0xdc, 0, 2] + el(0xcc, Y) + el(0xc5, 0, 4, *ys(4)), [0xdf, 0, 0, 0, 1] + el(0xd2, *ys(4)) + el(0xdb, 0, 0, 0, 3, *ys(3)), arr(el(0xc9, 0, 0, 0, 1, Y, Y), el(0xd6, Y, *ys(4)), el(7)), [0xde, 0, 1] + el(0xc6, 0, 0, 0, 2, Y, Y) + [0xdd, 0, 0, 0, 1] + el(0xe7), arr(el(7), el(0xc1))]
    write("file", [el(0xd9, 40, *ys(40)), arr(el(0xc4, 34, *ys(34)), el(0xcd, Y, Y)), arr(el(0xcb, *ys(8)), mp(el(0xa2, Y, Y), el(0xd8, Y, *ys(16))), el(0xd3, *ys(8)), el(0xa5, *ys(5))), arr(el(0xc7, 70, Y, *ys(70)), el(0xc3))])
    write("filec", [el(0xd9, 40, *ys(40)), arr(el(0xcb, *ys(8)), mp(el(0xa2, Y, Y), el(0xd8, Y, *ys(16))), el(0xa5, *ys(5)))])
    write("filew", [el(0xd9, 40, *ys(40)), arr(el(0xc4, 34, *ys(34)), el(0xcd, 0x12, 0x34)), arr(el(0xcb, *ys(8)), mp(el(0xa2, Y, Y), el(0xd8, Y, *ys(16))), el(7), el(0xa5, *ys(5))), arr(el(0xc7, 70, Y, *ys(70)), el(0xc3))])
    write("filehuge", [[0xdb, 0xff, 0xff, 0xff, 0xff] + ys(36), [0x92, 0xdb, 0xff, 0xff, 0xff, 0xff, 0x81] + ys(40), [0xc6, 0x80, 0, 0, 0] + ys(3), arr(el(0x07), el(0x08), [0xc9, 0xff, 0xff, 0xff, 0xe4, 5] + ys(30)), [0xdb, 0x7f, 0xff, 0xff, 0xff] + ys(40)])
    write("rstream", LONG + SHORT); write("rlong", LONG); write("rshort", SHORT)
    write("dcounts", [m for m in uniq(COUNTS) if m[0] not in ()] + [[0xda, 0xff, 0xff, 7], [0xdb, 0xff, 0xff, 0xff, 0xff, 7], [0xdb, 0x80, 0, 0, 0, 7], [0xc6, 0x7f, 0xff, 0xff, 0xff], [0xc9, 0xff, 0xff, 0xff, 0xff, Y, Y], [0xc4, 3, Y, Y]])
    nums = [[7], [0xe1], [0xcc, 0x80], [0xd0, 0x80], [0xcd, 0x12, 0x34], [0xd1, 0x80, 1], [0xce, 0x81, 2, 3, 4], [0xd2, 0x81, 2, 3, 4], [0xcf, 0x91, 2, 3, 4, 5, 6, 7, 8], [0xd3, 0x91, 2, 3, 4, 5, 6, 7, 8]]
    write("rdocs", [arr(*nums), arr(el(0xca, *ys(4)), el(0xcb, *ys(8)), el(0xc0), el(0xc2), el(0xc3)), mp(el(0xa0), el(0xa1, Y), el(0xa4, *ys(4)), el(0xd9, 32, *ys(32))), arr(el(0xc4, 0), el(0xc4, 3, *ys(3)), el(0xc7, 0, Y), el(0xc7, 3, Y, *ys(3)), el(0xd4, Y, Y)),
        mp(el(0xd5, Y, *ys(2)), el(0xd6, Y, *ys(4)), el(0xd7, Y, *ys(8)), el(0xd8, Y, *ys(16))), D_NEST[:D_NEST.index(0x90)], D_A16, D_M16, D_S31, D_B40, D_S70, D_B1, D_B2, D_B3, arr(), mp(), arr(arr(), mp(), arr(mp(el(1), arr())))])
    write("rdocsn", [arr(*nums), arr(el(0xca, *ys(4)), el(0xcb, *ys(8)), el(0xc0), el(0xc2), el(0xc3)), mp(el(0xa0), el(0xa1, Y), el(0xa4, *ys(4)), el(0xda, 0, 32, *ys(32))), arr(arr(), mp(), arr(mp(el(1), arr()))), D_S31, D_A16])
    write("docs", docs); shard("docsh", docs, 2); write("bdocs", bdocs)
    write("rel", rel); shard("errs", errs, 2); write("relt", relt); write("relw", relw)
    trk = [[0x90, 1], [0x91, 1, 2], [0xdc, 0, 2, 0xcc, Y, 3], [0x80, 1], [0xde, 0, 1, 1, 0xcc, Y, 3], [0xdd, 0xff, 0xff, 0xff, 0xff, 1, 2], [0xdf, 0x80, 0, 0, 1, 1, 2], [0x91, 0x92, 1, 2], [0x92, 0xa2, 0x41, 0x42, 7], [0xd9, 1, 0x41, 0x42, 7], [0xda, 0, 3, 0x41, 0x42, 7], [0xc4, 2, Y, Y, 7],
        [0xc6, 0xff, 0xff, 0xff, 0xff, 7, 7], [0xc7, 1, 5, 7, 7], [0xc8, 0, 0, 5, 7], [0x81, 0x81, 1, 2, 3], [1, 0x90, 1], [0x92, 0x91, 7, 1], [0x81, 7, 0x81, 1, 2]]
    shard("track", trk, 3)
    write("c09ok", [arr(mp(el(1), el(0xa1, 0x61)), el(0xcc, Y)), arr(el(0xa2, 0x61, 0x62)), mp(el(0xa1, 0x61), el(0xcb, *ys(8)), el(1), arr(el(1))), el(0xd6, 0xff, *ys(4)), arr(el(0xc4, 2, Y, Y)), el(0xc3)])
    write("stream", stream)
    write("streamt", streamt)
    write("pools", uniq([m for m in nest if len(m) <= 4][:12] + deep[:18]))
    print(len(single), len(trunc), len(open_), len(nest), len(deep), len(msgs))
