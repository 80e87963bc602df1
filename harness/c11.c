/* C11: reading numbers from nodes. One accessor on one node of every encoding. */
#include "ref.h"
#include "vf_lib.h"
#include "shape.h"
#include <limits.h>

static ref_tag_t r;
static mpack_tree_t tree;
static mpack_node_t node;

static bool is_int(void) { return r.type == REF_UINT || r.type == REF_INT; }
static bool neg(void) { return r.type == REF_INT && r.i < 0; }
static uint64_t mag(void) { return r.type == REF_UINT ? r.u : neg() ? (uint64_t)0 - (uint64_t)r.i : (uint64_t)r.i; }
static bool within_i(int64_t lo, int64_t hi) {
    if (!is_int()) return false;
    if (neg()) return r.i >= lo && r.i <= hi;
    return hi >= 0 && mag() <= (uint64_t)hi && (lo < 0 || mag() >= (uint64_t)lo);
}
static void outcome(bool ok) {
    CHECK((mpack_tree_error(&tree) == mpack_ok) == ok, "accepted exactly when the value fits");
    CHECK(ok || mpack_tree_error(&tree) == mpack_error_type, "the error is a type error");
}
#define U(fn, T, HI) { T v = fn(node); bool ok = is_int() && !neg() && mag() <= (HI); outcome(ok); CHECK(ok ? (uint64_t)v == mag() : v == 0, "exact value or zero"); break; }
#define I(fn, T, LO, HI) { T v = fn(node); bool ok = within_i(LO, HI); outcome(ok); \
    CHECK(ok ? (r.type == REF_INT ? (int64_t)v == r.i : (v >= 0 && (uint64_t)v == r.u)) : v == 0, "exact value or zero"); break; }

static float as_f(uint32_t u) { union { uint32_t u; float f; } v; v.u = u; return v.f; }
static double as_d(uint64_t u) { union { uint64_t u; double d; } v; v.u = u; return v.d; }
static bool nanf_(uint32_t b) { return (b & 0x7fffffffu) > 0x7f800000u; }
static bool nand_(uint64_t b) { return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static void is_f(float got, float want, bool exact) {
    uint32_t g = ref_float_bits(got), w = ref_float_bits(want);
    CHECK(exact ? g == w : (nanf_(w) ? nanf_(g) : g == w), "float value");
}
static void is_d(double got, double want, bool exact) {
    uint64_t g = ref_double_bits(got), w = ref_double_bits(want);
    CHECK(exact ? g == w : (nand_(w) ? nand_(g) : g == w), "double value");
}

static void op(unsigned k) {
    bool f = r.type == REF_FLOAT, d = r.type == REF_DOUBLE;
    switch (k) {
        case 0: U(mpack_node_u8, uint8_t, UINT8_MAX)
        case 1: U(mpack_node_u16, uint16_t, UINT16_MAX)
        case 2: U(mpack_node_u32, uint32_t, UINT32_MAX)
        case 3: U(mpack_node_u64, uint64_t, UINT64_MAX)
        case 4: U(mpack_node_uint, unsigned int, UINT_MAX)
        case 5: I(mpack_node_i8, int8_t, INT8_MIN, INT8_MAX)
        case 6: I(mpack_node_i16, int16_t, INT16_MIN, INT16_MAX)
        case 7: I(mpack_node_i32, int32_t, INT32_MIN, INT32_MAX)
        case 8: I(mpack_node_i64, int64_t, INT64_MIN, INT64_MAX)
        case 9: I(mpack_node_int, int, INT_MIN, INT_MAX)
#if MPACK_FLOAT
        case 10: { float v = mpack_node_float(node); bool ok = is_int() || f || d; outcome(ok);
            if (!ok) is_f(v, 0.0f, true);
            else if (f) is_f(v, as_f((uint32_t)r.u), true);
            else if (d) is_f(v, (float)as_d(r.u), false);
            else if (r.type == REF_UINT) is_f(v, (float)r.u, true);
            else is_f(v, (float)r.i, true);
            break; }
        case 11: { float v = mpack_node_float_strict(node); outcome(f); is_f(v, f ? as_f((uint32_t)r.u) : 0.0f, true); break; }
#endif
#if MPACK_DOUBLE
        case 12: { double v = mpack_node_double(node); bool ok = is_int() || f || d; outcome(ok);
            if (!ok) is_d(v, 0.0, true);
            else if (f) is_d(v, (double)as_f((uint32_t)r.u), false);
            else if (d) is_d(v, as_d(r.u), true);
            else if (r.type == REF_UINT) is_d(v, (double)r.u, true);
            else is_d(v, (double)r.i, true);
            break; }
        case 13: { double v = mpack_node_double_strict(node); outcome(f || d);
            if (f) is_d(v, (double)as_f((uint32_t)r.u), false); else is_d(v, d ? as_d(r.u) : 0.0, true); break; }
#endif
        case 14: { bool v = mpack_node_bool(node); outcome(r.type == REF_BOOL); CHECK(v == (r.type == REF_BOOL && r.b), "bool value or false"); break; }
        case 15: mpack_node_nil(node); outcome(r.type == REF_NIL); break;
        case 16: mpack_node_true(node); outcome(r.type == REF_BOOL && r.b); break;
        case 17: mpack_node_false(node); outcome(r.type == REF_BOOL && !r.b); break;
        case 18: mpack_node_missing(node); outcome(false); break;
        case 19: CHECK(mpack_node_is_nil(node) == (r.type == REF_NIL), "is_nil"); CHECK(!mpack_node_is_missing(node), "not missing"); outcome(true); break;
        case 20: CHECK(ref_tag_is(mpack_node_tag(node), &r), "tag"); outcome(true); break;
#if !MPACK_FLOAT
        case 21: { uint32_t v = mpack_node_raw_float(node); outcome(f); CHECK(v == (f ? (uint32_t)r.u : 0), "raw float"); break; }
#endif
#if !MPACK_DOUBLE
        case 22: { uint64_t v = mpack_node_raw_double(node); outcome(d); CHECK(v == (d ? r.u : 0), "raw double"); break; }
#endif
        default: ASSUME(0);
    }
}

static void run(uint8_t* p, size_t n) {
    uint8_t k = sym_u8();
    r = ref_decode(p, n);
    mpack_tree_init_data(&tree, (const char*)p, n);
    mpack_tree_parse(&tree);
    CHECK(mpack_tree_error(&tree) == mpack_ok, "parses");
    node = mpack_tree_root(&tree);
    for (unsigned i = OPLO; i <= OPHI; ++i)
        if (k == i) { op(i); mpack_tree_destroy(&tree); END(c11); STOPV(); }
    ASSUME(0);
}

int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
