/* generated by tools/gen_shapes.py: 2 templates */
SHAPE(0xd9, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x93, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0x81, 0xa2, Y, Y, 0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xa5, Y, Y, Y, Y, Y)
