SHAPE(0xa1, Y)
SHAPE(0xa2, 'a', Y)
SHAPE(0x91, 0xa1, Y)
