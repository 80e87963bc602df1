/* generated by tools/gen_shapes.py: 5 templates */
SHAPE(0x07, 0xe1, 0xcc, 0x80, 0xd0, 0x80, 0xcd, 0x12, 0x34, 0xd1, 0x80, 0x01, 0xce, 0x81, 0x02, 0x03, 0x04, 0xd2, 0x81, 0x02, 0x03, 0x04, 0xcf, 0x91, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0xd3, 0x91, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08)
SHAPE(0xa0, 0xa1, Y, 0xa4, Y, Y, Y, Y, 0xd9, 0x20, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x81, 0xa2, Y, Y, 0x93, 0x01, 0x80, 0x91, 0xa1, Y, 0x90, 0x92, 0xca, Y, Y, Y, Y, 0xc4, 0x01, Y)
SHAPE(0xde, 0x00, 0x10, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02, 0x01, 0x02)
SHAPE(0xc4, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
