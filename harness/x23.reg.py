_bk = "elements of every kind with symbolic contents, strings of 0-4 bytes in every header form, nested keys, truncated ones"
_ops = ["match against a symbolic string of 0-3 bytes", "match against C strings", "enumeration", "optional enumeration", "string keys, any set of keys already seen", "integer keys, any set of keys already seen", "match against a tag of any type and value", "nil, boolean, number and container matches, any value"]
_subs = [4, 4, 2, 2, 2, 8, 9, 10]
for _op in range(8):
    for _s in (0, 1):
        H("c23_%d%s" % (_op, "s" if _s else ""), "C23", "c23.c", _ops[_op] + (" (from a stream)" if _s else ""), _bk, 12, mode="safety" if not _s else "func",
          defs=["OP=%d" % _op, "SUBS=%d" % _subs[_op], "STREAM=%d" % _s, 'SHAPES="shapes_keys.inc"'], lib_defs=["MPACK_WRITER=0", "MPACK_NODE=0"], libs=["common", "platform", "reader", "expect"], object_bits=14, fs=1024, cost=40)
    if _op not in (1, 3, 6): H("c23_%dz" % _op, "C23", "c23.c", _ops[_op] + " (size-optimised, without builtins)", _bk, 12, mode="func", defs=["OP=%d" % _op, "SUBS=%d" % _subs[_op], "STREAM=0", 'SHAPES="shapes_keys.inc"'], lib_defs=["MPACK_WRITER=0", "MPACK_NODE=0", "MPACK_OPTIMIZE_FOR_SIZE=1", "MPACK_NO_BUILTINS=1"], libs=["common", "platform", "reader", "expect"], object_bits=14, fs=1024, cost=40)
