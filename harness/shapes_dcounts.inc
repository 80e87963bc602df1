/* generated by tools/gen_shapes.py: 63 templates */
SHAPE(0x8f, 0x07, 0x07)
SHAPE(0x9f, 0x07)
SHAPE(0xdc, 0x00, 0x01, 0x07, 0x07)
SHAPE(0xde, 0x00, 0x01, 0x07, 0x07)
SHAPE(0xdc, 0x00, 0x02, 0x07, 0x07)
SHAPE(0xde, 0x00, 0x02, 0x07, 0x07)
SHAPE(0xdc, 0x00, 0x03, 0x07, 0x07)
SHAPE(0xde, 0x00, 0x03, 0x07, 0x07)
SHAPE(0xdc, 0x00, 0x0f, 0x07, 0x07)
SHAPE(0xde, 0x00, 0x0f, 0x07, 0x07)
SHAPE(0xdc, 0x00, 0x10, 0x07, 0x07)
SHAPE(0xde, 0x00, 0x10, 0x07, 0x07)
SHAPE(0xdc, 0x00, 0xff, 0x07, 0x07)
SHAPE(0xde, 0x00, 0xff, 0x07, 0x07)
SHAPE(0xdc, 0x01, 0x00, 0x07, 0x07)
SHAPE(0xde, 0x01, 0x00, 0x07, 0x07)
SHAPE(0xdc, 0x7f, 0xff, 0x07, 0x07)
SHAPE(0xde, 0x7f, 0xff, 0x07, 0x07)
SHAPE(0xdc, 0x80, 0x00, 0x07, 0x07)
SHAPE(0xde, 0x80, 0x00, 0x07, 0x07)
SHAPE(0xdc, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xde, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x01, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x01, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x02, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x02, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x03, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x03, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x0f, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x0f, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x00, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x00, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdd, 0x00, 0x01, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdf, 0x00, 0x01, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdd, 0x55, 0x55, 0x55, 0x55, 0x07, 0x07)
SHAPE(0xdf, 0x55, 0x55, 0x55, 0x55, 0x07, 0x07)
SHAPE(0xdd, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdf, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdd, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdf, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0xdd, 0x80, 0x00, 0x00, 0x01, 0x07, 0x07)
SHAPE(0xdf, 0x80, 0x00, 0x00, 0x01, 0x07, 0x07)
SHAPE(0xdd, 0xaa, 0xaa, 0xaa, 0xab, 0x07, 0x07)
SHAPE(0xdf, 0xaa, 0xaa, 0xaa, 0xab, 0x07, 0x07)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xfe, 0x07, 0x07)
SHAPE(0xdf, 0xff, 0xff, 0xff, 0xfe, 0x07, 0x07)
SHAPE(0xdd, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0xdf, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0x91, 0xdd, 0x7f, 0xff, 0xff, 0xff, 0x07)
SHAPE(0x92, 0x07, 0xdf, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0x92, 0xdf, 0x7f, 0xff, 0xff, 0xff, 0x07, 0x07, 0x07)
SHAPE(0x91, 0xdd, 0x80, 0x00, 0x00, 0x00, 0x07)
SHAPE(0x92, 0x07, 0xdf, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07)
SHAPE(0x92, 0xdf, 0x80, 0x00, 0x00, 0x00, 0x07, 0x07, 0x07)
SHAPE(0x91, 0xdd, 0xff, 0xff, 0xff, 0xff, 0x07)
SHAPE(0x92, 0x07, 0xdf, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07)
SHAPE(0x92, 0xdf, 0xff, 0xff, 0xff, 0xff, 0x07, 0x07, 0x07)
SHAPE(0xda, 0xff, 0xff, 0x07)
SHAPE(0xdb, 0xff, 0xff, 0xff, 0xff, 0x07)
SHAPE(0xdb, 0x80, 0x00, 0x00, 0x00, 0x07)
SHAPE(0xc6, 0x7f, 0xff, 0xff, 0xff)
SHAPE(0xc9, 0xff, 0xff, 0xff, 0xff, Y, Y)
SHAPE(0xc4, 0x03, Y, Y)
