_c16u = {0: 60, 1: 40, 2: 80}
_tr = ["MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1", "MPACK_TRACKING_INITIAL_CAPACITY=2"]
def _c16(name, kind, shapes, fails, jump=0, ld=(), defs=(), what="", u=None, mode="safety", **k):
    H("c16_" + name, "C16", "c16.c", ["writers", "readers", "trees"][kind] + " release everything" + what, "messages of shapes_%s; payloads symbolic; each of allocations {%s} fails (0: none); abandoned after several numbers of elements%s" % (shapes, fails, "; the error handler never returns" if jump else ""), u or _c16u[kind], mode=mode,
      defs=['SHAPES="shapes_%s.inc"' % shapes, "KIND=%d" % kind, "FAILS=%s" % fails, "JUMP=%d" % jump] + list(defs),
      lib_defs=["MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=2", "MPACK_BUFFER_SIZE=33" if kind == 0 else "MPACK_BUFFER_SIZE=4", "MPACK_BUILDER_PAGE_SIZE=112", "MPACK_BUILDER_INTERNAL_STORAGE=0"] + list(ld), object_bits=16, fs=1024, cost=40, **k)
for _j in (0, 1):
    _c16("w_grow%d" % _j, 0, "relw", "0,2,3,4" if not _j else "2,3,4", _j, defs=["GROW=1", "STYLE=0", "BUILDS=0xffff", "CUTS=1,3,99"])
    _c16("w_plain%d" % _j, 0, "relw", "0,2,3" if not _j else "2,3", _j, defs=["GROW=1", "STYLE=1", "BUILDS=0", "CUTS=2,99"])
    _c16("w_track%d" % _j, 0, "relw", "0,2,3,4", _j, defs=["GROW=1", "STYLE=1", "BUILDS=0x5555", "CUTS=2,5,99"], ld=_tr)
    _c16("w_sink%d" % _j, 0, "relw", "0,1,2,3", _j, defs=["GROW=0", "STYLE=0", "BUILDS=0xffff", "CUTS=3,99", "IOFAIL=%d" % (1 + _j)])
    for _s in (0, 1, 2):
        _c16("r_mem%d%d" % (_s, _j), 1, "rel", "0,1,2,3" if not _j else "1,2,3", _j, defs=["STREAM=0", "IOFAIL=0", "IOFLAG=0", "STYLE=%d" % _s])
    _c16("r_str%d" % _j, 1, "rel", "0,1,2", _j, defs=["STREAM=1", "IOFAIL=%d" % (2 + _j), "IOFLAG=%d" % _j, "STYLE=%d" % (_j * 2), "CUTS=2,99"])
    _c16("r_track%d" % _j, 1, "rel", "2,3,4", _j, defs=["STREAM=0", "IOFAIL=0", "IOFLAG=0", "STYLE=%d" % _j, "CUTS=2,99"], ld=_tr)
    _c16("t_mem%d" % _j, 2, "relt", "0,1,2,3,4,5" if not _j else "1,2,3,4,5", _j, defs=["STREAM=0", "IOFAIL=0", "IOFLAG=0", "POLL=0"])
    _c16("t_str%d" % _j, 2, "relt", "0,1,2,3,4,5", _j, defs=["STREAM=1", "IOFAIL=0", "IOFLAG=%d" % _j, "POLL=0", "CUTS=1,99"])
    _c16("t_io%d" % _j, 2, "relt", "0,4", _j, defs=["STREAM=1", "IOFAIL=%d" % (2 + _j), "IOFLAG=%d" % _j, "POLL=%d" % _j, "CUTS=2,99"])
_c16("w_init", 0, "relw", "1", 0, defs=["GROW=1", "STYLE=0", "BUILDS=0xffff"], mode="func", ld=_tr)
_c16("r_init", 1, "rel", "1", 0, defs=["STREAM=0", "IOFAIL=0", "IOFLAG=0", "STYLE=0"], ld=_tr, mode="func")
_c16("w_realloc", 0, "relw", "0,1", 0, defs=["GROW=1", "STYLE=0", "BUILDS=0"], ld=["VF_REALLOC"], mode="func")
