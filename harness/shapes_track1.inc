/* generated by tools/gen_shapes.py: 6 templates */
SHAPE(0x91, 0x01, 0x02)
SHAPE(0xde, 0x00, 0x01, 0x01, 0xcc, Y, 0x03)
SHAPE(0x91, 0x92, 0x01, 0x02)
SHAPE(0xda, 0x00, 0x03, 0x41, 0x42, 0x07)
SHAPE(0xc7, 0x01, 0x05, 0x07, 0x07)
SHAPE(0x01, 0x90, 0x01)
