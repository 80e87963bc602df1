SHAPE(0x90)
SHAPE(0x92, 1, 0xa1, C)
SHAPE(0x80)
SHAPE(0x82, 0xa1, 'a', 0x91, 0xc2, 2, 0x81, 3, 0xc4, 2, Y, Y)
SHAPE(0x91, 0x91, 0x91, 0x90)
