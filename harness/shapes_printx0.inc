SHAPE(0xc1)
SHAPE(0x01, 0x02, 0x03)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xff, C, C)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xff, 1, 2)
SHAPE(0xdf, 0xff, 0xff, 0xff, 0xff, 1, 2, 3)
