_dbg = ["MPACK_DEBUG=1", "MPACK_STDIO=1", "VF_DEBUG_HOOKS", "VF_PRINT"]
_notrack = ["MPACK_READ_TRACKING=0", "MPACK_WRITE_TRACKING=0", "MPACK_NODE_PAGE_SIZE=128", "MPACK_NODE_INITIAL_DEPTH=4"]
_all = ",".join(str(i) for i in range(1, 90))
_few = "1,2,3,4,5,6,7,8,9,12,15,19,20,21,24,30,36,40,44,45,46,60,256"
def _c25(name, kind, what, bounds, unwind, defs=(), ld=(), arch=64, **k):
    H("c25_" + name, "C25", "c25.c", what, bounds + "; %d-bit" % arch, unwind, arch=arch, defs=["KIND=%d" % kind] + list(defs), lib_defs=_dbg + list(ld), object_bits=16, fs=1024, **k)
for _j in (0, 1):
    for _i, (_t, _d) in enumerate((("0,1,2,8,9,11", "1,5,10"), ("3,4", "1,2,10,19,20"), ("7", "1,10"), ("10", "1,10"))):
        _parts = [_few] if not (_j and _i >= 2) else [",".join(str(i) for i in range(26 + k, 82, 4)) for k in range(4)] + ["1,2,3,9,24,25,256"]
        for _k, _s in enumerate(_parts):
            _c25("tag%d_%d%s" % (_j, _i, "_%d" % _k if _k else ""), 0, "describing tags (pseudo-JSON)" if _j else "describing tags", "types {%s} with any value of {%s} digits and prefix bytes, buffers of {%s} bytes" % (_t, _d, _s), 262, ["JSON=%d" % _j, "TYPES=" + _t, "DIGITS=" + _d, "SIZES=" + _s], _notrack, cost=30)
    for _f in (1, 8, 317):
        _c25("tagf%d_%d" % (_j, _f), 0, "describing floating point numbers", "text of %d characters" % _f, 330, ["JSON=%d" % _j, "TYPES=5,6", "DIGITS=1", "FLEN=%d" % _f, "SIZES=1,2,5,8,9,10,15,16,17,255,256,316,317,318,324,325"], _notrack)
for _c in (0, 1):
    for _s in ("1,2", "3,5", "4,8"):
        _c25("append%d_%s" % (_c, _s[0]), 2, "the print buffer", "three pieces of {0, 1, 2, 4, 9} bytes, buffers of {%s} bytes" % _s, 68, ["CALLBACK=%d" % _c, "SIZES=" + _s], _notrack)
_print = lambda name, sh, what, how, cuts, sizes, flen=9, full=176, ld=(), unwind=262, kind=1, **k: _c25(name, kind, what, "messages of shapes_%s%s, buffers of {%s} bytes, floating point numbers of %d characters" % (sh, " cut at every byte" if cuts else "", sizes, flen), unwind, ['SHAPES="shapes_%s.inc"' % sh, "HOW=%d" % how] + (["SYMBOLIC=1"] if sh == "printy" else []) + ["CUTS=%d" % cuts, "FLEN=%d" % flen, "FULL=%d" % full, "SIZES=" + sizes], ld, cost=40, **k)
_track = ["MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1", "MPACK_TRACKING_INITIAL_CAPACITY=2"]
for _h in (0, 1):
    _w = "printing nodes" if _h else "printing data"
    for _k, _s in enumerate(("1,2,3,4,5,6,7,8,9,10,20,21", "1,2,20,26,27,28,29,30,38,39,40,41,45,51,52,53,54,55,56,66,69", "1,2,3,4,6,9,10,14,20,25,30,45")):
        _print("print%d_%d" % (_h, _k), "prints%d" % _k, _w, _h, 0, _s, ld=_notrack)
    _print("long%d" % _h, "printn", _w, _h, 0, "1,254,255,256,257,300", 316, 300, unwind=520, ld=_notrack)
    _print("sym%d" % _h, "printy", _w + " with any bytes", _h, 0, "1,2,3,4,5", 9, 16, ld=_notrack, unwindset=["vf_memcpy.0:18", "vf_strlen.0:18"])
for _k in range(3):
    _print("cut%d" % _k, "prints%d" % _k, "printing data cut anywhere", 0, 1, "9" if _k == 1 else "1,9,23", ld=_notrack)
    _print("bad%d" % _k, "printx%d" % _k, "printing invalid data", 0, 1, "1,9,23", ld=_track)
    _print("err%d" % _k, "prints%d" % _k, "printing nodes of a tree in error", 1, 0, "1,9,23", kind=4, ld=_notrack)
for _a in (32, 64):
    _c25("file%d" % _a, 3, "printing to and from files", "messages of shapes_printf", 262, ['SHAPES="shapes_printf.inc"', "FLEN=9", "FULL=128", "F_CAP=256"], ["VF_FILES=1", "MPACK_BUFFER_SIZE=33"] + _notrack, arch=_a, cost=30)

