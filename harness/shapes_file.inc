/* generated by tools/gen_shapes.py: 4 templates */
SHAPE(0xd9, 0x28, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y)
SHAPE(0x92, 0xc4, 0x22, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xcd, Y, Y)
SHAPE(0x94, 0xcb, Y, Y, Y, Y, Y, Y, Y, Y, 0x81, 0xa2, Y, Y, 0xd8, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xd3, Y, Y, Y, Y, Y, Y, Y, Y, 0xa5, Y, Y, Y, Y, Y)
SHAPE(0x92, 0xc7, 0x46, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, Y, 0xc3)
