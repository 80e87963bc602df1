/* generated by tools/gen_shapes.py: 4 templates */
SHAPE(0xca, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xc0, 0xc2, 0xc3)
SHAPE(0xc4, 0x00, 0xc4, 0x03, Y, Y, Y, 0xc7, 0x00, Y, 0xc7, 0x03, Y, Y, Y, Y, 0xd4, Y, Y, 0xd5, Y, Y, Y, 0xd6, Y, Y, Y, Y, Y, 0xd7, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0xdc, 0x00, 0x10, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y, 0xa1, Y)
SHAPE(0xbf, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
