/* generated by tools/gen_shapes.py: 60 templates */
SHAPE(0x91, 0x91, 0x91, 0x07)
SHAPE(0x91, 0x91, 0x91, 0x91, 0xa1, Y)
SHAPE(0x81, 0x07, 0x81, 0x08, 0x81, 0x09, 0xcc, Y)
SHAPE(0x91, 0x81, 0x07, 0x92, 0xcc, Y, 0xd0, Y)
SHAPE(0x81, 0x91, 0xcc, Y, 0x91, 0xd0, Y)
SHAPE(0x94, 0x01, 0x02, 0x03, 0xcc, Y)
SHAPE(0x93, 0x91, 0x01, 0x91, 0xcc, Y, 0xa1, Y)
SHAPE(0x93, 0x80, 0x90, 0x81, 0xa1, Y, 0x91, 0xcc, Y)
SHAPE(0x82, 0xa1, Y, 0x01, 0xa1, Y, 0xcc, Y)
SHAPE(0x82, 0xa0, 0x80, 0xc0, 0x91, 0x81, 0x01, 0xcd, Y, Y)
SHAPE(0xdc, 0x00, 0x02, 0xcc, Y, 0xa1, Y)
SHAPE(0xde, 0x00, 0x01, 0xa1, Y, 0xcc, Y)
SHAPE(0xdd, 0x00, 0x00, 0x00, 0x01, 0xcc, Y)
SHAPE(0xdf, 0x00, 0x00, 0x00, 0x01, 0xa1, Y, 0xcc, Y)
SHAPE(0x93, 0xcc, Y, 0x92, 0xa2, Y, Y, 0x81, 0x01, 0x02, 0xc3)
SHAPE(0x91, 0xc1)
SHAPE(0x91, 0x92, 0x01, 0xc1)
SHAPE(0x81, 0x01, 0xc1)
SHAPE(0x91)
SHAPE(0x91, 0x91)
SHAPE(0x91, 0x91, 0x91)
SHAPE(0x91, 0x91, 0x91, 0x91)
SHAPE(0x91, 0x91, 0x91, 0x91, 0xa1)
SHAPE(0x81)
SHAPE(0x81, 0x07)
SHAPE(0x81, 0x07, 0x81)
SHAPE(0x81, 0x07, 0x81, 0x08)
SHAPE(0x81, 0x07, 0x81, 0x08, 0x81)
SHAPE(0x81, 0x07, 0x81, 0x08, 0x81, 0x09)
SHAPE(0x81, 0x07, 0x81, 0x08, 0x81, 0x09, 0xcc)
SHAPE(0x91, 0x81)
SHAPE(0x91, 0x81, 0x07)
SHAPE(0x91, 0x81, 0x07, 0x92)
SHAPE(0x91, 0x81, 0x07, 0x92, 0xcc)
SHAPE(0x91, 0x81, 0x07, 0x92, 0xcc, Y)
SHAPE(0x91, 0x81, 0x07, 0x92, 0xcc, Y, 0xd0)
SHAPE(0x81, 0x91)
SHAPE(0x81, 0x91, 0xcc)
SHAPE(0x81, 0x91, 0xcc, Y)
SHAPE(0x81, 0x91, 0xcc, Y, 0x91)
SHAPE(0x81, 0x91, 0xcc, Y, 0x91, 0xd0)
SHAPE(0x94)
SHAPE(0x94, 0x01)
SHAPE(0x94, 0x01, 0x02)
SHAPE(0x94, 0x01, 0x02, 0x03)
SHAPE(0x94, 0x01, 0x02, 0x03, 0xcc)
SHAPE(0x93)
SHAPE(0x93, 0x91)
SHAPE(0x93, 0x91, 0x01)
SHAPE(0x93, 0x91, 0x01, 0x91)
SHAPE(0x93, 0x91, 0x01, 0x91, 0xcc)
SHAPE(0x93, 0x91, 0x01, 0x91, 0xcc, Y)
SHAPE(0x93, 0x91, 0x01, 0x91, 0xcc, Y, 0xa1)
SHAPE(0x93, 0x80)
SHAPE(0x93, 0x80, 0x90)
SHAPE(0x93, 0x80, 0x90, 0x81)
SHAPE(0x93, 0x80, 0x90, 0x81, 0xa1)
SHAPE(0x93, 0x80, 0x90, 0x81, 0xa1, Y)
SHAPE(0x93, 0x80, 0x90, 0x81, 0xa1, Y, 0x91)
SHAPE(0x93, 0x80, 0x90, 0x81, 0xa1, Y, 0x91, 0xcc)
