_b = "any 0..10 bytes, all 64-bit range limits, one expect call"
for _g, _n, _p in [(1, "unsigned", 2), (2, "signed", 2), (3, "float", 2), (4, "other", 2)]:
    for _i in range(_p):
        H("c10_%s%d" % (_n, _i), "C10", "c10.c", _n + " expectations", _b, 26, defs=["GROUP=%d" % _g, "PART=%d" % _i, "PARTS=%d" % _p])
H("c10_size", "C10", "c10.c", "nil, bool, str, bin, ext headers, size-optimised", _b, 26, defs=["GROUP=4", "PART=12", "PARTS=1"], lib_defs=["MPACK_OPTIMIZE_FOR_SIZE=1"])
