_b = "any 0..10 bytes (all headers are at most 9 bytes), read or peek"
H("c02_decode", "C02", "c02.c", "header decoding vs reference decoder", _b, 12, cost=20)
H("c02_noext", "C02", "c02.c", "header decoding without extension support", _b, 12, lib_defs=["MPACK_EXTENSIONS=0"])
H("c02_size", "C02", "c02.c", "header decoding, size-optimised parser", _b, 12, lib_defs=["MPACK_OPTIMIZE_FOR_SIZE=1"])
H("c02_nofloat", "C02", "c02.c", "header decoding without floating point", _b, 12, lib_defs=["MPACK_FLOAT=0", "MPACK_DOUBLE=0"])
