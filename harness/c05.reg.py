_p = ["MPACK_NODE_PAGE_SIZE=96", "MPACK_NODE_INITIAL_DEPTH=8"]
_tb = {"single": "one element of every encoding with symbolic values, alone and followed by a byte",
       "trunc": "every truncation of one element of every encoding", "open": "strings, binary and extensions with symbolic 8/16/32-bit lengths, up to 4 following bytes",
       "counts": "array and map headers declaring boundary counts over 2-3 following bytes", "nest0": "arrays and maps of 1-2 elements of all encodings", "nest1": "arrays and maps of 1-2 elements of all encodings",
       "deep": "up to 5 levels and 10 nodes, complete and truncated", "stream": "21 messages covering every encoding and nesting", "streamt": "the same messages with the last byte missing", "pools": "30 nested messages of up to 10 nodes", "msgs": "30 messages covering every encoding and nesting"}
for _s in ("single", "trunc", "open", "counts", "nest0", "nest1", "deep"):
    H("c05_" + _s, "C05", "c05.c", "tree parser against reader", _tb[_s] + "; all other bytes symbolic", 22, defs=['SHAPES="shapes_%s.inc"' % _s], lib_defs=_p, object_bits=12, fs=1024, cost=30)
