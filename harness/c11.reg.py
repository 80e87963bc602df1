_b = "every number encoding with all payload values (fixint values 0,7,0x40,0x7f,-1,-8,-27,-32), and one element of each other type; accessors %s"
for _n, _lo, _hi in (("uint", 0, 4), ("int", 5, 9), ("float", 10, 11), ("double", 12, 13), ("other", 14, 20)):
    H("c11_" + _n, "C11", "c11.c", "node number accessors (%s)" % _n, _b % _n, 12, defs=['SHAPES="shapes_nums.inc"', "OPLO=%d" % _lo, "OPHI=%d" % _hi], object_bits=12, fs=1024, lib_defs=["MPACK_NODE_PAGE_SIZE=96"], cost=40)
H("c11_nofloat", "C11", "c11.c", "node accessors without floating point support", _b % "all", 12, defs=['SHAPES="shapes_nums.inc"', "OPLO=19", "OPHI=22"], object_bits=12, fs=1024, lib_defs=["MPACK_NODE_PAGE_SIZE=96", "MPACK_FLOAT=0", "MPACK_DOUBLE=0"], cost=40)
