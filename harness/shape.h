/* Runs run(bytes, n) for each message template of SHAPES; see tools/gen_shapes.py */
#ifndef SHAPE_H
#define SHAPE_H 1
#define Y sym_u8()
enum { SHAPE_BASE = __COUNTER__ + 1 };
/* the vacuity twin only looks at the first messages */
#ifndef TWIN_SHAPES
#define TWIN_SHAPES 3
#endif
#define SHAPE(...) SHAPE_(__COUNTER__ - SHAPE_BASE, __VA_ARGS__)
#define SHAPE_(k, ...) SHAPE__(k, __VA_ARGS__)
#define SHAPE__(k, ...) if ((!VF_TWIN || (k) < TWIN_SHAPES) && sel == (k)) { uint8_t b[] = {__VA_ARGS__}; run(b, sizeof(b)); STOP(); }
#endif
