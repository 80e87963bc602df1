/* generated by tools/gen_shapes.py: 87 templates */
SHAPE(0x07)
SHAPE(0x7f)
SHAPE(0xe0)
SHAPE(0xff)
SHAPE(0xc0)
SHAPE(0xc2)
SHAPE(0xc3)
SHAPE(0xca, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xcc, Y)
SHAPE(0xcd, Y, Y)
SHAPE(0xce, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd0, Y)
SHAPE(0xd1, Y, Y)
SHAPE(0xd2, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xa0)
SHAPE(0xa1, Y)
SHAPE(0xa3, Y, Y, Y)
SHAPE(0xd9, 0x00)
SHAPE(0xd9, 0x02, Y, Y)
SHAPE(0xda, 0x00, 0x01, Y)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x02, Y, Y)
SHAPE(0xc4, 0x00)
SHAPE(0xc4, 0x02, Y, Y)
SHAPE(0xc5, 0x00, 0x01, Y)
SHAPE(0xc6, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0xd4, Y, Y)
SHAPE(0xd5, Y, Y, Y)
SHAPE(0xd6, Y, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x00, Y)
SHAPE(0xc7, 0x03, Y, Y, Y, Y)
SHAPE(0xc8, 0x00, 0x01, Y, Y)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x01, Y, Y)
SHAPE(0x90)
SHAPE(0x80)
SHAPE(0xdc, 0x00, 0x00)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x00)
SHAPE(0xde, 0x00, 0x00)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x00)
SHAPE(0xc1)
SHAPE(0x07, Y)
SHAPE(0x7f, Y)
SHAPE(0xe0, Y)
SHAPE(0xff, Y)
SHAPE(0xc0, Y)
SHAPE(0xc2, Y)
SHAPE(0xc3, Y)
SHAPE(0xca, Y, Y, Y, Y, Y)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xcc, Y, Y)
SHAPE(0xcd, Y, Y, Y)
SHAPE(0xce, Y, Y, Y, Y, Y)
SHAPE(0xcf, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd0, Y, Y)
SHAPE(0xd1, Y, Y, Y)
SHAPE(0xd2, Y, Y, Y, Y, Y)
SHAPE(0xd3, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xa0, Y)
SHAPE(0xa1, Y, Y)
SHAPE(0xa3, Y, Y, Y, Y)
SHAPE(0xd9, 0x00, Y)
SHAPE(0xd9, 0x02, Y, Y, Y)
SHAPE(0xda, 0x00, 0x01, Y, Y)
SHAPE(0xdb, 0x00, 0x00, 0x00, 0x02, Y, Y, Y)
SHAPE(0xc4, 0x00, Y)
SHAPE(0xc4, 0x02, Y, Y, Y)
SHAPE(0xc5, 0x00, 0x01, Y, Y)
SHAPE(0xc6, 0x00, 0x00, 0x00, 0x01, Y, Y)
SHAPE(0xd4, Y, Y, Y)
SHAPE(0xd5, Y, Y, Y, Y)
SHAPE(0xd6, Y, Y, Y, Y, Y, Y)
SHAPE(0xd7, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xc7, 0x00, Y, Y)
SHAPE(0xc7, 0x03, Y, Y, Y, Y, Y)
SHAPE(0xc8, 0x00, 0x01, Y, Y, Y)
SHAPE(0xc9, 0x00, 0x00, 0x00, 0x01, Y, Y, Y)
SHAPE(0x90, Y)
SHAPE(0x80, Y)
SHAPE(0xdc, 0x00, 0x00, Y)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x00, Y)
SHAPE(0xde, 0x00, 0x00, Y)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x00, Y)
