for _op in range(10):
    H("c04_int%d" % _op, "C04", "c04_int.c", "%s written and read back by reader and tree" % ["uint", "int", "u32", "i32", "u16", "i16", "u8", "i8", "int tag", "uint tag"][_op], "every value", 260, mode="func", defs=["OP=%d" % _op], object_bits=12, fs=1024, cost=8)
def _c04(name, style, builds, sink, stream, shapes="rdocs", ld=(), **k):
    H("c04_" + name, "C04", "c04.c", "documents written %s and read back %s" % (["to a buffer", "through a 32-byte buffer and a flush callback", "to a growable buffer"][sink], "through fill callbacks" if stream else "from memory"),
      "documents with every element kind, strings and binaries of 0-70 bytes, 0-16 elements, nesting of up to 5; payloads symbolic; writing style %d, automatic counts mask %#x" % (style, builds), 82, mode="func",
      defs=['SHAPES="shapes_%s.inc"' % shapes, "STYLE=%d" % style, "BUILDS=%d" % builds, "SINK=%d" % sink, "STREAM=%d" % stream, "TREE_DEPTH=6"],
      lib_defs=["MPACK_NODE_PAGE_SIZE=256", "MPACK_NODE_INITIAL_DEPTH=3", "MPACK_BUFFER_SIZE=64", "MPACK_BUILDER_PAGE_SIZE=256"] + list(ld), object_bits=14, fs=1024, cost=50, **k)
_c04("buf", 0, 0, 0, 0)
_c04("sink", 1, 0, 1, 1)
_c04("grow", 2, 0, 2, 0)
_c04("build", 0, 0xffff, 0, 0)
_c04("mixed", 1, 0x5a5a, 1, 1)
_c04("grow_b", 0, 0xa5a5, 2, 1)
_c04("b32", 1, 0x5555, 2, 1, arch=32)
_c04("size", 0, 0, 0, 0, ld=["MPACK_OPTIMIZE_FOR_SIZE=1", "MPACK_NO_BUILTINS=1"])
