SHAPE(0xc4, 0)
SHAPE(0xc4, 1, Y)
SHAPE(0xc4, 12, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc4, 13, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd4, 0x80, Y)
SHAPE(0xc7, 14, 5, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
