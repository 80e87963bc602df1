_wl = ["common", "platform", "writer"]
_wd = ["MPACK_READER=0", "MPACK_EXPECT=0", "MPACK_NODE=0"]
_wb = "documents covering every encoding size class, str/bin/ext of 0-40 bytes, nested and 16-bit containers; payloads and float values symbolic, integers fixed; 3 styles of writing (plain, start/bytes/finish and tags, narrow types)"
for _k in (0, 1, 2):
    for _h in (0, 1):
        H("c12_docs%d_%d" % (_k, _h), "C12", "c12.c", "writing documents into buffers of every size", _wb + "; every buffer size from 0 to one more than needed", 72, mode="safety", defs=['SHAPES="shapes_docsh%d.inc"' % _h, "STYLE=%d" % _k], lib_defs=_wd, libs=_wl, object_bits=16, fs=1024, cost=60)
for _lo, _hi in ((0, 1), (2, 3), (4, 9)):
    H("c12_int%d" % _lo, "C12", "c12_int.c", "integers, headers and timestamps of every value into buffers of every size", "two integers (or one header or timestamp) of any value; every buffer size from 0 to 18", 22, mode="safety", defs=["OPLO=%d" % _lo, "OPHI=%d" % _hi], lib_defs=_wd, libs=_wl, object_bits=12, fs=64, cost=60)
