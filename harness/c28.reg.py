H("c28_order", "C28", "c28.c", "loads and stores", "every value, offsets 0..7 of an aligned block", 26, defs=["PART=0"])
H("c28_order_nb", "C28", "c28.c", "loads and stores without builtins", "every value, offsets 0..7 of an aligned block", 26, defs=["PART=0"], lib_defs=["MPACK_NO_BUILTINS=1"])
H("c28_mem", "C28", "c28.c", "own memory functions", "lengths 0..8, offsets 0..8, any bytes", 26, defs=["PART=1"], lib_defs=["VF_OWN_MEM", "MPACK_NO_BUILTINS=1"], mode="safety")
