/* generated by tools/gen_shapes.py: 21 templates */
SHAPE(0xc0)
SHAPE(0xcb, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x92, 0xcd, Y, Y, 0xd1, Y, Y)
SHAPE(0xa3, Y, Y, Y)
SHAPE(0xd9, 0x02, Y, Y)
SHAPE(0xc4, 0x02, Y, Y)
SHAPE(0xc7, 0x03, Y, Y, Y, Y)
SHAPE(0xd6, Y, Y, Y, Y, Y)
SHAPE(0x91, 0x91, 0xcc, Y)
SHAPE(0x81, 0xa1, Y, 0xcc, Y)
SHAPE(0xdc, 0x00, 0x02, 0xcc, Y, 0xd0, Y)
SHAPE(0x92, 0xda, 0x00, 0x01, Y, 0xdb, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0x92, 0xc5, 0x00, 0x01, Y, 0xc6, 0x00, 0x00, 0x00, 0x01, Y)
SHAPE(0xde, 0x00, 0x01, 0xd4, Y, Y, 0x90)
SHAPE(0x92, 0xce, Y, Y, Y, Y, 0xcf, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x93, 0xd2, Y, Y, Y, Y, 0xca, Y, Y, Y, Y, 0x07)
SHAPE(0x81, 0x07, 0x92, 0xa1, Y, 0x81, 0x01, 0xd0, Y)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x01, 0xd5, Y, Y, Y)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x01, 0xc8, 0x00, 0x01, Y, Y, 0xc9, 0x00, 0x00, 0x00, 0x01, Y, Y)
SHAPE(0x93, 0x07, 0xc1, 0x01)
SHAPE(0xc1)
