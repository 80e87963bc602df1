_p2 = ["MPACK_NODE_PAGE_SIZE=64", "MPACK_NODE_INITIAL_DEPTH=2"]
_p8 = ["MPACK_NODE_PAGE_SIZE=64", "MPACK_NODE_INITIAL_DEPTH=8"]
_nm = ["VF_NO_MALLOC=1", "MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC=3"]
def _c06(name, s, title, bounds, defs, lib, arch=64, **k):
    H("c06_" + name, "C06", "c06.c", title, _tb[s] + "; all other bytes symbolic; " + bounds, 22, mode="safety", defs=['SHAPES="shapes_%s.inc"' % s] + defs, lib_defs=lib,
      object_bits=12, fs=1024, cost=40, unwindset=["vf_memcpy.0:200"], arch=arch, **k)
for _s in ("single", "trunc", "open", "counts", "nest0", "nest1", "deep"):
    _c06("page_" + _s, _s, "parsing into allocated pages", "64-byte pages, parse stack growing from 2", ["POOL=0"], _p2)
for _s in ("pools",):
    _c06("fail_" + _s, _s, "parsing with failing allocations", "64-byte pages, the 1st, .. 5th or no allocation fails", ["POOL=0", "FAIL=5"], _p2)
for _s in ("single", "open", "counts"):
    _c06("pool_" + _s, _s, "parsing into a pool of 3 nodes", "pool of 3 nodes", ["POOL=3"], _p8)
for _s in ("pools",):
    _c06("pool_" + _s, _s, "parsing into a pool of every size", "pools of 1..6 nodes", ["POOLS=6"], _p8)
_c06("nomalloc", "deep", "parsing without an allocator", "pool of 6 nodes, at most 3 levels", ["POOL=6"], _nm)
_c06("counts32", "counts", "parsing on a 32-bit target", "32-bit model", ["POOL=0"], _p2, arch=32)
for _z in (64, 96, 112):
    for _a in (32, 64):
        H("c06_sizes%d_%d" % (_z, _a), "C06", "c06.c", "parsing containers of every size into pages", "messages of shapes_pages, %d-byte pages; %d-bit" % (_z, _a), 26, mode="safety", defs=['SHAPES="shapes_pages.inc"', "POOL=0"],
          lib_defs=["MPACK_NODE_PAGE_SIZE=%d" % _z, "MPACK_NODE_INITIAL_DEPTH=4"], object_bits=12, fs=1024, cost=30, unwindset=["vf_memcpy.0:200"], arch=_a)
for _z in (64, 96, 112):
    H("c06_guard%d" % _z, "C06", "c06.c", "parsing containers of every size into pages followed by guard bytes", "messages of shapes_pageone, %d-byte pages, 48 guard bytes" % _z, 50, defs=['SHAPES="shapes_pageone.inc"', "POOL=0", "NOWALK"],
      lib_defs=["MPACK_NODE_PAGE_SIZE=%d" % _z, "MPACK_NODE_INITIAL_DEPTH=4", "VF_SLACK=48"], object_bits=12, fs=1024, cost=20)
