def _c29(name, kind, shapes, owns, fails, what, defs=(), unwind=90, arch=64, ld=(), **k):
    H("c29_" + name, "C29", "c29.c", what, "messages of shapes_%s; payloads symbolic; file calls {%s} fail (0: none); owner cases {%s}; %d-bit; %s" % (shapes, fails, owns, arch, " ".join(defs)), unwind, arch=arch,
      defs=['SHAPES="shapes_%s.inc"' % shapes, "KIND=%d" % kind, "OWNS=%s" % owns, "FAILS=%s" % fails] + list(defs),
      lib_defs=["MPACK_STDIO=1", "VF_FILES=1", "MPACK_BUFFER_SIZE=33", "MPACK_BUILDER_PAGE_SIZE=112", "MPACK_BUILDER_INTERNAL_STORAGE=0", "MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=4"] + list(ld), object_bits=16, fs=1024, cost=40, **k)
for _s, _w in ((0, "reading"), (1, "reading in place"), (2, "skipping"), (3, "discarding"), (4, "allocating")):
    _c29("r_cut%d" % _s, 0, "filec", "0", "0", "a file cut anywhere, " + _w, ["CUTS=1", "STYLE=%d" % _s, "UNSEEKABLE=0"])
    _c29("r_fail%d" % _s, 0, "file", "0,1,2", "0,1,2,3,4,5,6", "every call of a reader fails once, " + _w, ["STYLE=%d" % _s, "UNSEEKABLE=0"])
_c29("r_chunk", 0, "file", "1", "0,3", "a file delivered in small pieces", ["CHUNK=3", "STYLE=0", "UNSEEKABLE=0"])
_c29("r_part", 0, "file", "2", "2,3,4", "a failing read still transfers some bytes", ["PART=2", "FROM=1", "STYLE=0", "UNSEEKABLE=0"])
_c29("r_nomem", 0, "file", "0,1,2", "0", "no memory for the buffer", ["MFAIL=1", "STYLE=0", "UNSEEKABLE=0"])
for _s in (2, 3):
    _c29("r_pipe%d" % _s, 0, "file", "1", "0,2,3,4,5", "a file that cannot seek", ["STYLE=%d" % _s, "UNSEEKABLE=1"])
    _c29("r_pipecut%d" % _s, 0, "filec", "1", "0", "a file that cannot seek, cut anywhere", ["CUTS=1", "STYLE=%d" % _s, "UNSEEKABLE=1"])
    for _a in (32, 64):
        _c29("r_huge%d_%d" % (_s, _a), 0, "filehuge", "1", "0", "lengths beyond the file", ["STYLE=%d" % _s, "UNSEEKABLE=0"], arch=_a)
for _s, _b in ((0, "0"), (1, "0"), (0, "0xffff")):
    _c29("w%d%s" % (_s, "b" * (_b != "0")), 1, "filew", "0,1,2", "0,1,2,3,4,5,6", "writing", ["STYLE=%d" % _s, "BUILDS=%s" % _b])
_c29("w_part", 1, "filew", "0,2", "1,2,3,4,5", "a failing write and all later calls fail", ["STYLE=0", "BUILDS=0", "PART=3", "FROM=1"])
_c29("w_nomem", 1, "filew", "0,1,2", "0", "no memory for the buffer", ["MFAIL=1", "STYLE=0", "BUILDS=0"])
for _a in (32, 64):
    _c29("t%d" % _a, 2, "file", "0,1,2", "0,1,2,3,4,5,6", "trees of files", ["UNSEEKABLE=0"], arch=_a)
_c29("t_cut", 2, "filec", "1", "0", "trees of files cut anywhere", ["CUTS=1", "UNSEEKABLE=0"])
_c29("t_part", 2, "file", "2", "4,5,6", "a failing read still transfers some bytes", ["PART=2", "FROM=1", "UNSEEKABLE=0", "CHUNK=9"])
_c29("t_pipe", 2, "file", "1", "0", "a file that cannot seek", ["UNSEEKABLE=1"])
for _m in (1, 2, 3):
    _c29("t_nomem%d" % _m, 2, "file", "0,1", "0", "no memory", ["MFAIL=%d" % _m, "UNSEEKABLE=0"])
