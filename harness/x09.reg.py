_t09 = ["MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1", "MPACK_TRACKING_INITIAL_CAPACITY=2"]
def _c09(name, pre, lo, hi, stream, what, ld=(), tier="quick", u=12, defs=()):
    H("c09_" + name, "C09", "c09.c", what, "%s, calls %d to %d of 116 reader and expect functions%s, %s" % (["9 arbitrary bytes, all 9 errors", "messages of shapes_errs (one half), payloads symbolic"][pre], lo, hi, ["with arbitrary arguments", ""][pre], ["memory", "stream with fill", "stream with fill and skip"][stream]), u, mode="safety", tier=tier,
      defs=["PRE=%d" % pre, "LO=%d" % lo, "HI=%d" % hi, "STREAM=%d" % stream] + list(defs), lib_defs=list(ld), unwindset=["run.0:12", "run.1:130"], object_bits=16, cost=30, fs=1024)
for _s in (0, 2):
    _c09("flagged%d" % _s, 0, 0, 116, _s, "every call is inert once an error has been flagged")
    _c09("flaggedt%d" % _s, 0, 0, 116, _s, "every call is inert once an error has been flagged (tracking on)", ld=_t09)
for _lo, _hi in ((0, 29), (30, 43), (44, 57), (58, 79), (80, 84), (85, 91), (92, 96), (98, 116)):
    for _k in (0, 1):
        _d = ['SHAPES="shapes_errs%d.inc"' % _k]
        _c09("first_%d_%d" % (_lo, _k), 1, _lo, _hi, 0, "an error raised by any call is reported once and sticks", defs=_d, tier="thorough" if _k and _lo in (0, 85) else "quick")
        _c09("firsts_%d_%d" % (_lo, _k), 1, _lo, _hi, 2, "an error raised by any call on a stream is reported once and sticks", defs=_d, tier="quick" if _k and _lo in (44, 58) else "thorough")
        _c09("track_%d_%d" % (_lo, _k), 1, _lo, _hi, 0, "errors from tracking are reported once and stick", ld=_t09, defs=_d, tier="thorough" if _k or not _lo else "quick")
def _c09w(name, sink, pre, hows, what, ld=(), every=3, **k):
    H("c09_w_" + name, "C09", "c09_w.c", what, "57 write calls, five numbers and counts, payload bytes symbolic, %s; cases %s" % (["fixed buffer", "flush function", "growable buffer"][sink], hows), 62, mode="safety",
      defs=["SINK=%d" % sink, "PRE=%d" % pre, "HOWS=%s" % hows, "EVERY=%d" % every], lib_defs=["MPACK_BUFFER_SIZE=33", "MPACK_BUILDER_PAGE_SIZE=112", "MPACK_BUILDER_INTERNAL_STORAGE=0"] + list(ld), object_bits=16, fs=1024, cost=40, **k)
for _s, _n in enumerate(("fixed", "flush", "grow")):
    _c09w(_n + "0", _s, 0, "0,1,2,3,4,5,6,7,8", "every write call keeps the first error")
    _c09w(_n + "1", _s, 1, ["0,1,3", "1,2", "1,2,3"][_s], "an error raised by a write call is reported once and sticks")
    _c09w(_n + "t", _s, 0, "0,1,2,3,4,5,6,7,8", "every write call keeps the first error (tracking on)", ld=_t09)
    _c09w(_n + "t1", _s, 1, ["0,1,3,40", "1,2", "1,2,3"][_s], "an error raised by tracking is reported once and sticks", ld=_t09)
def _c09t(name, pre, stream, shapes, hows, what, every=3, **k):
    H("c09_t_" + name, "C09", "c09_t.c", what, "messages of shapes_%s, payloads symbolic; 75 accessor and parse calls; cases %s" % (shapes, hows), 40, mode="safety",
      defs=["PRE=%d" % pre, "STREAM=%d" % stream, 'SHAPES="shapes_%s.inc"' % shapes, "HOWS=%s" % hows, "EVERY=%d" % every], lib_defs=["MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=2", "MPACK_BUFFER_SIZE=4"], object_bits=16, fs=1024, cost=40, unwindset=["one.0:78"], **k)
_c09t("flag", 0, 0, "c09ok", "0,1,2,3,4,5,6,7,8", "every accessor and parse call keeps the first error")
_c09t("flags", 0, 1, "c09ok", "0,1,2,3,4,5,6,7,8", "every accessor and parse call keeps the first error (stream)", every=9)
for _k in (0, 1):
    _c09t("own%d" % _k, 1, 0, "errs%d" % _k, "0", "an error from an accessor is reported once and sticks", every=1)
_c09t("mem", 1, 0, "relt", "1,2,3", "a failing allocation is reported once and sticks", every=3)
_c09t("str", 1, 1, "relt", "1,2,3,4,17,18,19,21,22,23", "failing allocations and read functions are reported once and stick", every=10)
