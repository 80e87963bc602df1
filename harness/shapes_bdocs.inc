/* generated by tools/gen_shapes.py: 6 templates */
SHAPE(0x94, 0x01, 0x82, 0xa1, Y, 0x92, 0xca, Y, Y, Y, Y, 0x02, 0x03, 0x80, 0x90, 0xc4, 0x02, Y, Y)
SHAPE(0x81, 0x91, 0x07, 0x81, 0x08, 0x92, 0x91, 0xa2, Y, Y, 0x09)
SHAPE(0x93, 0x92, 0x91, 0xa1, Y, 0x01, 0xd4, Y, Y, 0x92, 0xd9, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0x81, 0x01, 0xa3, Y, Y, Y)
SHAPE(0x90, 0x80, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0x91, 0x90)
SHAPE(0x9f, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0)
SHAPE(0xdc, 0x00, 0x10, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0xa0, 0x81, 0x01, 0x02)
