SHAPE(0xa2, '"', C)
SHAPE(0xc4, 13, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x92, 1, 0x81, 2, 0xa1, C)
SHAPE(0xcd, 1, 0)
