SHAPE(0xc0)
SHAPE(0xc3)
SHAPE(0xa0)
SHAPE(0xa3, C, '\n', C)
SHAPE(0xa4, '\\', C, '"', 'x')
SHAPE(0x7f)
SHAPE(0xd3, 0x80, 0, 0, 0, 0, 0, 0, 0)
SHAPE(0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
SHAPE(0xca, 0x40, 0x20, 0, 0)
SHAPE(0xcb, 0xff, 0xef, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
SHAPE(0xc4, 0)
SHAPE(0xc4, 1, Y)
SHAPE(0xc4, 12, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc4, 13, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd4, 0x80, Y)
SHAPE(0xc7, 14, 5, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x90)
SHAPE(0x92, 1, 0xa1, C)
SHAPE(0x80)
SHAPE(0x82, 0xa1, 'a', 0x91, 0xc2, 2, 0x81, 3, 0xc4, 2, Y, Y)
SHAPE(0x91, 0x91, 0x91, 0x90)
