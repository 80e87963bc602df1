/* generated by tools/gen_shapes.py: 6 templates */
SHAPE(0x9a, 0x07, 0xe1, 0xcc, 0x80, 0xd0, 0x80, 0xcd, 0x12, 0x34, 0xd1, 0x80, 0x01, 0xce, 0x81, 0x02, 0x03, 0x04, 0xd2, 0x81, 0x02, 0x03, 0x04, 0xcf, 0x91, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0xd3, 0x91, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08)
SHAPE(0x95, 0xca, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xc0, 0xc2, 0xc3)
SHAPE(0x82, 0xa0, 0xa1, Y, 0xa4, Y, Y, Y, Y, 0xda, 0x00, 0x20, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x93, 0x90, 0x80, 0x91, 0x81, 0x01, 0x90)
SHAPE(0xbf, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xdc, 0x00, 0x10, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y)
