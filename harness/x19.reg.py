_bd = "strings, binaries and extensions of 0-4 bytes in every header form, contents symbolic, and other types; every destination size from 0 to two more than needed"
_bh = "declared lengths up to 2^32-1 with almost no data; destinations of 0-2 bytes"
def _c19(name, part, src, chunk=1, shapes="datas", ops=(0, 3), arch=64, ld=(), mode="safety", **k):
    fam = ["reader copies", "expect copies", "node copies"][part]
    where = ["from memory", "from truncated memory", "from a stream, %d bytes per fill" % chunk, "from a stream ending early, %d bytes per fill" % chunk][src]
    node = part == 2
    H("c19_" + name, "C19", "c19.c", "%s %s" % (fam, where), _bh if shapes == "hugedatas" else _bd, 11, mode=mode,
      defs=['SHAPES="shapes_%s.inc"' % shapes, "PART=%d" % part, "SRC=%d" % src, "CHUNK=%d" % chunk, "OPLO=%d" % ops[0], "OPHI=%d" % ops[1]],
      lib_defs=(list(_p4) if node else ["MPACK_WRITER=0", "MPACK_NODE=0"]) + list(ld), libs=_nl if node else ["common", "platform", "reader", "expect"],
      object_bits=14, fs=1024, arch=arch, cost=40, **k)
for _p, _ops in ((0, ((0, 0), (1, 1), (2, 2), (3, 3))), (1, ((0, 1), (2, 2), (3, 3), (4, 6)))):
    _n = "re"[_p]
    for _o in _ops:
        _c19("%s%d_mem" % (_n, _o[0]), _p, 0, ops=_o)
        _c19("%s%d_trunc" % (_n, _o[0]), _p, 1, ops=_o)
        _c19("%s%d_s1" % (_n, _o[0]), _p, 2, 1, ops=_o, mode="func")
        _c19("%s%d_st" % (_n, _o[0]), _p, 3, 2, ops=_o, mode="func")
        _c19("%s%d_st9" % (_n, _o[0]), _p, 3, 9, ops=_o, mode="func")
_c19("e_huge", 1, 0, shapes="hugedatas", ops=(0, 6))
_c19("e_huge_s", 1, 2, 9, shapes="hugedatas", ops=(0, 6))
for _o in range(4): _c19("n%d" % _o, 2, 0, ops=(_o, _o))
_c19("e_size", 1, 0, ld=["MPACK_OPTIMIZE_FOR_SIZE=1"], ops=(2, 2))
_c19("e_huge32", 1, 0, shapes="hugedatas", arch=32, ops=(0, 6))
