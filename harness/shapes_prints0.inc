SHAPE(0xc0)
SHAPE(0xc3)
SHAPE(0xa0)
SHAPE(0xa3, C, '\n', C)
SHAPE(0xa4, '\\', C, '"', 'x')
SHAPE(0x7f)
SHAPE(0xd3, 0x80, 0, 0, 0, 0, 0, 0, 0)
SHAPE(0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
SHAPE(0xca, 0x40, 0x20, 0, 0)
SHAPE(0xcb, 0xff, 0xef, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
