/* generated by tools/gen_shapes.py: 17 templates */
SHAPE(0x9a, 0x07, 0xe1, 0xcc, 0x80, 0xd0, 0x80, 0xcd, 0x12, 0x34, 0xd1, 0x80, 0x01, 0xce, 0x81, 0x02, 0x03, 0x04, 0xd2, 0x81, 0x02, 0x03, 0x04, 0xcf, 0x91, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0xd3, 0x91, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08)
SHAPE(0x95, 0xca, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xc0, 0xc2, 0xc3)
SHAPE(0x82, 0xa0, 0xa1, Y, 0xa4, Y, Y, Y, Y, 0xd9, 0x20, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x95, 0xc4, 0x00, 0xc4, 0x03, Y, Y, Y, 0xc7, 0x00, Y, 0xc7, 0x03, Y, Y, Y, Y, 0xd4, Y, Y)
SHAPE(0x82, 0xd5, Y, Y, Y, 0xd6, Y, Y, Y, Y, Y, 0xd7, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x81, 0xa2, Y, Y, 0x93, 0x01, 0x80, 0x91, 0xa1, Y)
SHAPE(0xdc, 0x00, 0x10, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y)
SHAPE(0xde, 0x00, 0x10, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02)
SHAPE(0xbf, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc4, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd9, 0x46, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x94, 0x01, 0x82, 0xa1, Y, 0x92, 0xca, Y, Y, Y, Y, 0x02, 0x03, 0x80, 0x90, 0xc4, 0x02, Y, Y)
SHAPE(0x81, 0x91, 0x07, 0x81, 0x08, 0x92, 0x91, 0xa2, Y, Y, 0x09)
SHAPE(0x93, 0x92, 0x91, 0xa1, Y, 0x01, 0xd4, Y, Y, 0x92, 0xd9, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0x81, 0x01, 0xa3, Y, Y, Y)
SHAPE(0x90)
SHAPE(0x80)
SHAPE(0x93, 0x90, 0x80, 0x91, 0x81, 0x01, 0x90)
