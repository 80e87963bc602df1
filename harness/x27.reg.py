# C27: the programs that decide other properties for the default configuration,
# under the other configurations: the oracle is the same reference in each, so
# every configuration is the same function of its input.
_track = ["MPACK_READ_TRACKING=1", "MPACK_WRITE_TRACKING=1", "MPACK_TRACKING_INITIAL_CAPACITY=2"]
_cfg = {
    "size": ("size-optimised, without builtins,", ["MPACK_OPTIMIZE_FOR_SIZE=1", "MPACK_NO_BUILTINS=1"]),
    "own": ("size-optimised, without builtins, with the library's own memory functions", ["MPACK_OPTIMIZE_FOR_SIZE=1", "MPACK_NO_BUILTINS=1", "VF_OWN_MEM"]),
    "debug": ("debug checks and tracking", ["MPACK_DEBUG=1", "VF_DEBUG_HOOKS"] + _track),
    "dbg": ("debug checks without tracking", ["MPACK_DEBUG=1", "VF_DEBUG_HOOKS", "MPACK_READ_TRACKING=0", "MPACK_WRITE_TRACKING=0"]),
    "nofp": ("without floating point", ["MPACK_FLOAT=0", "MPACK_DOUBLE=0"]),
    "nodbl": ("without double", ["MPACK_DOUBLE=0"]),
    "min": ("without extensions, compatibility, builders and strings, size-optimised", ["MPACK_EXTENSIONS=0", "MPACK_COMPATIBILITY=0", "MPACK_BUILDER=0", "MPACK_STRINGS=0", "MPACK_OPTIMIZE_FOR_SIZE=1"]),
}
def _c27(name, file, cfgs, title, bounds, unwind, defs=(), ld=(), **k):
    for c in cfgs:
        H("c27_%s_%s" % (name, c), "C27", file, "%s: %s" % (title, _cfg[c][0]), bounds, unwind, defs=defs, lib_defs=_cfg[c][1] + list(ld), **k)
_all = ("size", "debug", "nofp", "nodbl", "min")
_c27("decode", "c02.c", ("size", "dbg", "nofp", "nodbl", "min"), "header decoding", "any 0..10 bytes", 12)
_c27("encode", "c03.c", ("own", "dbg", "nofp", "nodbl", "min"), "encodings", "every value of every type", 26)
_c27("str", "c03_str.c", ("own", "dbg"), "str/bin/ext data", "every length of the bound of C03", 42)
for _c, _sh in ((("size", "debug", "nofp"), "rdocs"), (("min",), "rdocsn")):
    _c27("doc", "c04.c", _c, "writing and reading back documents", "documents of shapes_%s as for C04" % _sh, 82,
     defs=['SHAPES="shapes_%s.inc"' % _sh, "STYLE=1", "BUILDS=0", "SINK=1", "STREAM=1", "TREE_DEPTH=6"], ld=["MPACK_NODE_PAGE_SIZE=256", "MPACK_NODE_INITIAL_DEPTH=3", "MPACK_BUFFER_SIZE=64"], object_bits=14, fs=1024, cost=50)
_nod = ("size", "nofp", "nodbl", "min")
_c27("tree", "c05.c", ("size", "nofp", "min"), "trees against readers", "messages of shapes_nest0 as for C05", 22, defs=['SHAPES="shapes_nest0.inc"'], ld=["MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=8"], object_bits=12, fs=1024, cost=30)
_c27("one", "c05.c", _nod, "trees against readers", "messages of shapes_single as for C05", 22, defs=['SHAPES="shapes_single.inc"'], ld=["MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=8"], object_bits=12, fs=1024, cost=30)
_c27("node", "c11.c", ("debug", "size"), "node accessors", "messages of shapes_nums as for C11, accessors 14 to 20", 12, defs=['SHAPES="shapes_nums.inc"', "OPLO=14", "OPHI=20"], object_bits=12, fs=1024, ld=["MPACK_NODE_PAGE_SIZE=96"], cost=40)
_c27("expect", "c10.c", ("dbg", "nofp", "size"), "expectations of other types", "any 0..10 bytes as for C10", 26, defs=["GROUP=4", "PART=0", "PARTS=2"])
_c27("expectu", "c10.c", ("dbg",), "expectations of unsigned numbers", "any 0..10 bytes as for C10", 26, defs=["GROUP=1", "PART=0", "PARTS=2"])
_c27("ts", "c22.c", ("debug", "size"), "timestamps", "all 2^64 seconds and 2^32 nanoseconds", 18, defs=["PART=0", "HOW=0"], object_bits=12, fs=1024, cost=15)
