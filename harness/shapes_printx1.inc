SHAPE(0xc6, 0xff, 0xff, 0xff, 0xff, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc9, 0xff, 0xff, 0xff, 0xff, 7, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
