SHAPE(0x93, 0xc4, 3, Y, Y, Y, 0xa2, C, C, 0xc1)
SHAPE(0x82, 0xa1, C, 0x91, 0xc0, 0x90, 0xcd, 1, 2)
