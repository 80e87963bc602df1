/* generated by tools/gen_shapes.py: 7 templates */
SHAPE(0x90, 0x01)
SHAPE(0x80, 0x01)
SHAPE(0xdf, 0x80, 0x00, 0x00, 0x01, 0x01, 0x02)
SHAPE(0xd9, 0x01, 0x41, 0x42, 0x07)
SHAPE(0xc6, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0x81, 0x81, 0x01, 0x02, 0x03)
SHAPE(0x81, 0x07, 0x81, 0x01, 0x02)
