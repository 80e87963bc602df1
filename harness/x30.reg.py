_bd30 = "strings, binaries, extensions of 0-4 bytes in every header form, contents symbolic, other types, truncated data; limits around the length, 1, 2^32-1 and SIZE_MAX; the allocation fails"
_bh30 = "declared lengths or counts up to 2^32-1; allocations above 4096 bytes (8 for data) fail"
_o30 = ["C string", "UTF-8 C string", "binary / data", "extension", "raw bytes", "array", "array or nil"]
def _c30(name, op, shapes, stream=0, node=0, es=8, arch=64, mode="safety", cap=0, **k):
    H("c30_" + name, "C30", "c30.c", "allocate a %s%s%s" % (_o30[op], " from a node" if node else " from a stream" if stream else "", " of %d-byte elements" % es if op > 4 else ""), (_bh30 if shapes != "datas" else _bd30) + (", 32-bit" if arch == 32 else ""), 11, mode=mode,
      defs=["OP=%d" % op, "STREAM=%d" % stream, "NODE=%d" % node, "ESIZE=%d" % es, 'SHAPES="shapes_%s.inc"' % shapes] + (["CAP=8"] if shapes == "hugedatas" else []),
      lib_defs=list(_p4) if node else ["MPACK_WRITER=0", "MPACK_NODE=0"], libs=_nl if node else ["common", "platform", "reader", "expect"], object_bits=14, fs=1024, arch=arch, cost=30, **k)
for _op in range(5):
    _c30("%d" % _op, _op, "datas")
    _c30("%ds" % _op, _op, "datas", stream=1, mode="func")
    _c30("%dh" % _op, _op, "hugedatas")
    _c30("%dh32" % _op, _op, "hugedatas", arch=32)
for _op in range(3):
    _c30("%dn" % _op, _op, "datas", node=1)
for _op in (5, 6):
    for _es in (1, 3, 8, 80):
        _c30("%d_%d" % (_op, _es), _op, "arrays", es=_es)
        _c30("%d_%d_32" % (_op, _es), _op, "arrays", es=_es, arch=32)
    _c30("%d_3s" % _op, _op, "arrays", es=3, stream=1)
