_b = "any 0..10 bytes, any %d of 13 reader calls, all 32-bit counts (destinations up to 12 bytes)"
H("c01_mem1", "C01", "c01.c", "an arbitrary reader call over arbitrary bytes in memory", _b % 1, 16, mode="safety", cost=60, defs=["K=1", "MASK=0x1fff"])
H("c01_mem3", "C01", "c01.c", "3 arbitrary reader calls over arbitrary bytes in memory", _b % 3, 16, mode="safety", cost=600, defs=["K=3", "MASK=0x1fff"], tier="thorough", timeout=3600)
_b = "32-byte buffer with any prefix consumed, up to 2 fills of 0..4 bytes, -1 or flagged errors, any one of 13 calls, destinations up to 6 bytes"
_u = ["run.0:34", "run.1:14", "main.0:40", "main.1:40"]
for _i, _t in enumerate(["0x7f,0xc4,0xc5,0xd4,0xd7", "0xc6,0xc7,0xc8,0xc9,0xda", "0xca,0xcb,0xce,0xd3,0xdf"]):
    H("c01_stream_tag%d" % _i, "C01", "c01_stream.c", "reading or peeking a header on a stream in any buffer state", _b + ", headers " + _t, 10, mode="safety", cost=100,
      defs=["MASK=0x3", "LEFTS=0,1,2,8", "CHUNK=9", "TYPES=" + _t], unwindset=_u, object_bits=10)
for _i, _m in enumerate([0x14, 0x20, 0x40, 0x80, 0x500, 0x200, 0x1800]):
    H("c01_stream_%d" % _i, "C01", "c01_stream.c", "one reader call on a stream in any buffer state", _b, 10, mode="safety", cost=100, defs=["MASK=0x%x" % _m, "LEFTS=0,1,2,5,6", "DST=6"], unwindset=_u)
H("c01_stream_skip", "C01", "c01_stream.c", "skipping on a stream in any buffer state", _b, 4, mode="safety", cost=100, defs=["MASK=8", "LEFTS=0,1,2,6", "DST=6"], unwindset=_u)
