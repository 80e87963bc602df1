/* generated by tools/gen_shapes.py: 9 templates */
SHAPE(0x93, 0xa5, Y, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xc3)
SHAPE(0x81, 0xa2, Y, Y, 0x92, 0xce, Y, Y, Y, Y, 0xd0, Y)
SHAPE(0x94, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y, 0xca, Y, Y, Y, Y, 0xd1, Y, Y, 0xc0)
SHAPE(0xc8, 0x00, 0x02, Y, Y, Y)
SHAPE(0xdc, 0x00, 0x02, 0xcc, Y, 0xc5, 0x00, 0x04, Y, Y, Y, Y)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x01, 0xd2, Y, Y, Y, Y, 0xdb, 0x00, 0x00, 0x00, 0x03, Y, Y, Y)
SHAPE(0x93, 0xc9, 0x00, 0x00, 0x00, 0x01, Y, Y, 0xd6, Y, Y, Y, Y, Y, 0x07)
SHAPE(0xde, 0x00, 0x01, 0xc6, 0x00, 0x00, 0x00, 0x02, Y, Y, 0xdd, 0x00, 0x00, 0x00, 0x01, 0xe7)
SHAPE(0x92, 0x07, 0xc1)
