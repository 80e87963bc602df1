for _h in range(3):
    for _a in (64, 32):
        H("c22_write_%d_%d" % (_h, _a), "C22", "c22.c", "write a timestamp and read it back with every reader (%s)" % ["seconds and nanoseconds", "struct", "seconds"][_h],
          "all 2^64 seconds and 2^32 nanoseconds", 18, mode="func", defs=["PART=0", "HOW=%d" % _h], object_bits=12, fs=1024, arch=_a, cost=15)
H("c22_size", "C22", "c22.c", "write and read back, size-optimised without builtins", "all 2^64 seconds and 2^32 nanoseconds", 18, mode="func", defs=["PART=0", "HOW=0"], lib_defs=["MPACK_OPTIMIZE_FOR_SIZE=1", "MPACK_NO_BUILTINS=1"], object_bits=12, fs=1024, cost=15)
_bt = "extension elements of every header form with any type, payloads of 0-17 bytes or truncated, contents symbolic; other types"
H("c22_any", "C22", "c22.c", "arbitrary elements read as timestamps", _bt, 24, mode="safety", defs=["PART=1", 'SHAPES="shapes_ts.inc"'], lib_defs=["MPACK_WRITER=0"], libs=["common", "platform", "reader", "expect", "node"], object_bits=14, fs=1024, cost=40)
H("c22_any_dbg", "C22", "c22.c", "arbitrary elements read as timestamps, 32-bit without builtins", _bt, 24, mode="func", defs=["PART=1", 'SHAPES="shapes_ts.inc"'], lib_defs=["MPACK_WRITER=0", "MPACK_NO_BUILTINS=1"], libs=["common", "platform", "reader", "expect", "node"], object_bits=14, fs=1024, arch=32, cost=40)
