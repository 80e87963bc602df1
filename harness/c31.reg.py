H("c31_shorten", "C31", "c31.c", "expect and node accessors in a build without double", "all 2^64 double bit patterns", 12, lib_defs=["MPACK_DOUBLE=0", "MPACK_FLOAT=1"])
H("c31_shorten_size", "C31", "c31.c", "the same, size-optimised", "all 2^64 double bit patterns", 12, lib_defs=["MPACK_DOUBLE=0", "MPACK_FLOAT=1", "MPACK_OPTIMIZE_FOR_SIZE=1"])
