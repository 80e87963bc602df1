_bb = "documents of nested arrays and maps, empty containers, 15 and 16 elements, strings of 0-40 bytes; payloads symbolic"
def _c15(name, builds, style=0, lo=0, hi=48, step=1, outer=1, size=300, sink=0, fail=0, io=0, page=112, ld=(), prop="C15", mode="safety", what="", **k):
    H("%s_%s" % (prop.lower(), name), prop, "c15.c", "automatically counted containers" + (" through a flush callback" if sink else "") + (", a page allocation fails" if fail else "") + what,
      _bb + "; containers with automatic count: mask %#x%s; after a string of %d..%d (step %d) bytes; %d-byte pages%s%s" % (builds, " and around all" if outer else "", lo, hi, step, page, "; page allocation %d fails" % fail if fail else "", "; flush %d fails" % io if io else ""), 110, mode=mode,
      defs=['SHAPES="shapes_bdocs.inc"', "STYLE=%d" % style, "FLO=%d" % lo, "FHI=%d" % hi, "FSTEP=%d" % step, "BUILDS=%d" % builds, "OUTER=%d" % outer, "SIZE=%d" % size, "SINK=%d" % sink, "FAIL=%d" % fail, "IOFAIL=%d" % io],
      lib_defs=_wd + ["MPACK_BUILDER_PAGE_SIZE=%d" % page] + list(ld), libs=_wl, object_bits=16, fs=1024, cost=60, **k)
_c15("all", 0xffff, hi=24, step=6)
_c15("all_b", 0xffff, lo=3, hi=48, step=9, style=1)
_c15("all_c", 0xffff, lo=1, hi=48, step=8, page=136)
_c15("even", 0x5555, lo=1, hi=48, step=9)
_c15("odd", 0xaaaa, lo=3, hi=48, step=9, style=1)
_c15("inner", 0xffff, outer=0, lo=0, hi=48, step=9)
_c15("leaf", 0xfff8, lo=2, hi=48, step=9)
_c15("sink", 0xffff, lo=0, hi=48, step=11, sink=1, size=32)
_c15("sink_o", 0x5555, outer=0, lo=4, hi=48, step=11, sink=1, size=33)
_c15("io1", 0xffff, lo=0, hi=48, step=18, sink=1, size=32, io=1)
_c15("io2", 0xffff, lo=9, hi=48, step=18, sink=1, size=32, io=2)
_c15("small", 0xffff, lo=0, hi=48, step=16, size=24)
_c15("internal", 0xffff, lo=0, hi=48, step=11, ld=["MPACK_BUILDER_INTERNAL_STORAGE=1", "MPACK_BUILDER_INTERNAL_STORAGE_SIZE=128"])
_c15("mem1", 0xffff, lo=0, hi=48, step=16, fail=1)
_c15("mem2", 0xffff, lo=0, hi=48, step=7, fail=2)
_c15("mem3", 0xffff, lo=0, hi=48, step=9, fail=3)
_c15("mem_i", 0xffff, lo=0, hi=48, step=9, fail=1, ld=["MPACK_BUILDER_INTERNAL_STORAGE=1", "MPACK_BUILDER_INTERNAL_STORAGE_SIZE=112"])
_c15("a32", 0xffff, lo=0, hi=48, step=8, page=100, arch=32)
_c15("b32", 0x5555, lo=2, hi=48, step=8, page=108, arch=32)
_c15("c32", 0xffff, lo=4, hi=48, step=12, page=112, arch=32, sink=1, size=32)
# thorough: every filler length
for _st, _ma in ((0, 0xffff), (1, 0x5555), (0, 0xaaaa)):
    for _pg in (112, 120, 136):
        for _lo in range(0, 6):
            _c15("t%d_%x_%d_%d" % (_st, _ma, _pg, _lo), _ma, lo=_lo, hi=60, step=6, style=_st, page=_pg, tier="thorough", timeout=3000)
for _pg in (96, 100, 104, 108):
    for _lo in range(0, 4):
        _c15("t32_%d_%d" % (_pg, _lo), 0xffff, lo=_lo, hi=60, step=4, page=_pg, arch=32, tier="thorough", timeout=3000)
