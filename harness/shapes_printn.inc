SHAPE(0xca, 0x40, 0x20, 0, 0)
SHAPE(0xcb, 0xff, 0xef, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
SHAPE(0x91, 0xca, 1, 2, 3, 4)
