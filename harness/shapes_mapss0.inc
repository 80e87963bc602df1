/* generated by tools/gen_shapes.py: 45 templates */
SHAPE(0x80)
SHAPE(0x81, 0xff, 0x91, 0x05)
SHAPE(0x81, 0xd0, Y, 0xc0)
SHAPE(0x81, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y, 0xc3)
SHAPE(0x81, 0xa0, 0xa0)
SHAPE(0x81, 0xa2, Y, Y, 0xa1, 0x41)
SHAPE(0x81, 0xda, 0x00, 0x02, Y, Y, 0x91, 0x05)
SHAPE(0x81, 0xc3, 0xc0)
SHAPE(0x81, 0xd4, Y, Y, 0xc3)
SHAPE(0x81, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xa0)
SHAPE(0x81, 0x81, 0x07, 0x08, 0xa1, 0x41)
SHAPE(0x82, 0x07, 0x91, 0x05, 0xff, 0xc2)
SHAPE(0x82, 0x07, 0xc0, 0xd0, Y, 0x80)
SHAPE(0x82, 0x07, 0xc3, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y, 0xc0)
SHAPE(0x82, 0xff, 0xa0, 0xff, 0x01)
SHAPE(0x82, 0xff, 0xa1, 0x41, 0xd0, Y, 0xc0)
SHAPE(0x82, 0xff, 0x91, 0x05, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y, 0xc2)
SHAPE(0x82, 0xcc, Y, 0xc0, 0xcc, Y, 0x80)
SHAPE(0x82, 0xcc, Y, 0xc3, 0xcd, Y, Y, 0xc0)
SHAPE(0x82, 0xcc, Y, 0xa0, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y, 0x01)
SHAPE(0x82, 0xd0, Y, 0xa1, 0x41, 0xcd, Y, Y, 0xc0)
SHAPE(0x82, 0xd0, Y, 0x91, 0x05, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y, 0xc2)
SHAPE(0x82, 0xcd, Y, Y, 0xc0, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y, 0x80)
SHAPE(0x82, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y, 0xc3, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y, 0xc0)
SHAPE(0x82, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y, 0xa0, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y, 0x01)
SHAPE(0x82, 0xa0, 0xa1, 0x41, 0xa1, Y, 0xc0)
SHAPE(0x82, 0xa0, 0x91, 0x05, 0xd9, 0x01, Y, 0xc2)
SHAPE(0x82, 0xa1, Y, 0xc0, 0xa1, Y, 0x80)
SHAPE(0x82, 0xa1, Y, 0xc3, 0xd9, 0x01, Y, 0xc0)
SHAPE(0x82, 0xa2, Y, Y, 0xa0, 0xa2, Y, Y, 0x01)
SHAPE(0x82, 0xa2, Y, Y, 0xa1, 0x41, 0xda, 0x00, 0x02, Y, Y, 0xc0)
SHAPE(0x82, 0xd9, 0x01, Y, 0x91, 0x05, 0xda, 0x00, 0x02, Y, Y, 0xc2)
SHAPE(0x83, 0xa1, Y, 0x01, 0xa1, Y, 0xa1, 0x41, 0xc0, 0xc0)
SHAPE(0x83, 0xa1, Y, 0xc0, 0xa1, Y, 0x91, 0x05, 0xc4, 0x01, Y, 0xc2)
SHAPE(0x83, 0xa1, Y, 0xc2, 0xa1, Y, 0xc0, 0xca, Y, Y, Y, Y, 0x80)
SHAPE(0x83, 0xa1, Y, 0x80, 0xa1, Y, 0xc3, 0x91, 0x07, 0xc0)
SHAPE(0x83, 0xa1, Y, 0xc0, 0xa1, Y, 0xa0, 0x07, 0x01)
SHAPE(0x83, 0xa2, Y, Y, 0x01, 0xa1, Y, 0xa1, 0x41, 0xc0, 0xc0)
SHAPE(0x83, 0xa2, Y, Y, 0xc0, 0xa1, Y, 0x91, 0x05, 0xc4, 0x01, Y, 0xc2)
SHAPE(0x83, 0xa2, Y, Y, 0xc2, 0xa1, Y, 0xc0, 0xca, Y, Y, Y, Y, 0x80)
SHAPE(0x83, 0xa2, Y, Y, 0x80, 0xa1, Y, 0xc3, 0x91, 0x07, 0xc0)
SHAPE(0x83, 0xa2, Y, Y, 0xc0, 0xa1, Y, 0xa0, 0x07, 0x01)
SHAPE(0x83, 0xa1, Y, 0x01, 0xa2, Y, Y, 0xa1, 0x41, 0xd9, 0x01, Y, 0xc0)
SHAPE(0x84, 0xa0, 0xc0, 0xa1, Y, 0x91, 0x05, 0xd9, 0x01, Y, 0xc2, 0xda, 0x00, 0x02, Y, Y, 0xc0)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x02, 0xa1, Y, 0xc2, 0xd9, 0x01, Y, 0xc0)
