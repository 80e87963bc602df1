/* generated by tools/gen_shapes.py: 4 templates */
SHAPE(0x93, 0x01, 0x81, 0xa1, 0x61, 0x92, 0xca, Y, Y, Y, Y, 0x02, 0xc4, 0x02, Y, Y)
SHAPE(0x81, 0x91, 0x07, 0x81, 0x08, 0x92, 0x91, 0xa2, Y, Y, 0x09)
SHAPE(0x92, 0x91, 0xd9, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xd4, Y, Y)
SHAPE(0x94, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y)
