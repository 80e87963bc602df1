_t17 = ["MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1", "MPACK_TRACKING_INITIAL_CAPACITY=2"]
def _c17(name, kind, depth, what, bounds, defs=(), tier="quick", **k):
    H("c17_" + name, "C17", "c17.c", what, bounds, 40, defs=["KIND=%d" % kind, "DEPTH=%d" % depth] + list(defs), lib_defs=_t17 + ["MPACK_BUFFER_SIZE=33", "MPACK_BUILDER_PAGE_SIZE=112", "MPACK_BUILDER_INTERNAL_STORAGE=0"], object_bits=16, fs=1024, cost=40, tier=tier, **k)
for _d, _t in ((3, "quick-only"), (4, "thorough")):
    for _k in range(3):
        _c17("read%d_%d" % (_d, _k), 0, _d, "reader tracking agrees with the model", "messages of shapes_track%d, every sequence of up to %d of 17 calls, then destruction" % (_k, _d), ['SHAPES="shapes_track%d.inc"' % _k], _t)
    for _a, _b in ((0, 2), (3, 6), (7, 20)):
        _c17("write%d_%d" % (_d, _a), 1, _d, "writer tracking agrees with the model", "every sequence of up to %d of 20 calls starting with calls %d to %d, counts 0..2, then destruction" % (_d, _a, _b), ["FIRST=%d" % _a, "LAST=%d" % _b], _t)
for _d, _t in ((4, "quick-only"), (5, "thorough")):
    for _a, _b in ((0, 0), (1, 1), (2, 5), (6, 6), (7, 13)):
        _c17("build%d_%d" % (_d, _a), 2, _d, "builder tracking agrees with the model", "every sequence of up to %d of 13 calls starting with calls %d to %d, then destruction" % (_d, _a, _b), ["FIRST=%d" % _a, "LAST=%d" % _b], _t)
for _a, _b in ((0, 0), (1, 1), (2, 4)):
    _c17("rcount%d" % _a, 3, 1, "a container must get exactly the elements or bytes declared", "container kinds %d to %d (array, map, str, bin, ext), every 32-bit count, 0 to 2 elements or 0 to 4 bytes read" % (_a, _b), ["FIRST=%d" % _a, "LAST=%d" % _b])
_c17("wcount", 4, 1, "a container must get exactly the elements or bytes declared", "all five container kinds, every 32-bit count, 0 to 4 elements or bytes written", ["FIRST=0", "LAST=4"])
