/* C10: expecting numbers. One expectation on arbitrary bytes, compared with the
 * reference decoder. The reference value is sign + magnitude so that no
 * conversion can hide a wrap. */
#include "ref.h"
#include "vf_lib.h"
#include <limits.h>
#define N 10

static ref_tag_t r;
static mpack_reader_t reader;
static size_t n;

static bool is_int(void) { return r.status == REF_OK && (r.type == REF_UINT || r.type == REF_INT); }
static bool neg(void) { return r.type == REF_INT && r.i < 0; }
static uint64_t mag(void) { return r.type == REF_UINT ? r.u : neg() ? (uint64_t)0 - (uint64_t)r.i : (uint64_t)r.i; }
/* encoded value within [lo, hi]; lo may be negative */
static bool within_u(uint64_t lo, uint64_t hi) { return is_int() && !neg() && mag() >= lo && mag() <= hi; }
static bool within_i(int64_t lo, int64_t hi) {
    if (!is_int()) return false;
    if (neg()) return r.i >= lo && r.i <= hi;
    return hi >= 0 && mag() <= (uint64_t)hi && (lo < 0 || mag() >= (uint64_t)lo);
}
static bool err(void) { return mpack_reader_error(&reader) != mpack_ok; }

static bool big_ok; /* the documented error for a string above the maximum is too_big */
static void outcome(bool ok) {
    if (ok) {
        CHECK(!err(), "a value that fits must be accepted");
        CHECK(mpack_reader_remaining(&reader, NULL) == n - r.size, "consumes exactly the element");
    } else {
        CHECK(err(), "a value that does not fit must be rejected");
        if (r.status == REF_OK)
            CHECK(mpack_reader_error(&reader) == (big_ok ? mpack_error_too_big : mpack_error_type), "the error is a type error");
        else
            CHECK(mpack_reader_error(&reader) == mpack_error_invalid ||
                  mpack_reader_error(&reader) == mpack_error_type, "invalid or truncated data is an error");
    }
}
#define U(fn, T, LO, HI, DEF) do { T v = fn; bool ok = within_u(LO, HI); outcome(ok); \
    CHECK(ok ? (uint64_t)v == mag() : v == (DEF), "exact value or the default"); } while (0)
#define I(fn, T, LO, HI, DEF) do { T v = fn; bool ok = within_i(LO, HI); outcome(ok); \
    CHECK(ok ? (r.type == REF_INT ? (int64_t)v == r.i : (v >= 0 && (uint64_t)v == r.u)) : v == (DEF), "exact value or the default"); } while (0)
#define RANGES_U(name, T, MAX) \
    case 0: U(mpack_expect_##name(&reader), T, 0, MAX, 0); break; \
    case 1: { T lo = (T)a, hi = (T)b; ASSUME(lo <= hi); U(mpack_expect_##name##_range(&reader, lo, hi), T, lo, hi, lo); break; } \
    case 2: { T hi = (T)b; U(mpack_expect_##name##_max(&reader, hi), T, 0, hi, 0); break; }
#define RANGES_I(name, T, MIN, MAX) \
    case 0: I(mpack_expect_##name(&reader), T, MIN, MAX, 0); break; \
    case 1: { T lo = (T)a, hi = (T)b; ASSUME(lo <= hi); I(mpack_expect_##name##_range(&reader, lo, hi), T, lo, hi, lo); break; } \
    case 2: { T hi = (T)b; ASSUME(hi >= 0); I(mpack_expect_##name##_max(&reader, hi), T, 0, hi, 0); break; }

static uint64_t a, b;

#if GROUP == 1
static void unsigned_ops(uint8_t t, uint8_t k) {
    if (t == 0) switch (k) { RANGES_U(u8, uint8_t, UINT8_MAX) default: ASSUME(0); }
    else if (t == 1) switch (k) { RANGES_U(u16, uint16_t, UINT16_MAX) default: ASSUME(0); }
    else if (t == 2) switch (k) { RANGES_U(u32, uint32_t, UINT32_MAX) default: ASSUME(0); }
    else if (t == 3) switch (k) { RANGES_U(u64, uint64_t, UINT64_MAX)
        case 3: mpack_expect_uint_match(&reader, a); outcome(within_u(a, a)); break;
        default: ASSUME(0); }
    else if (t == 4) switch (k) { RANGES_U(uint, unsigned int, UINT_MAX) default: ASSUME(0); }
    else ASSUME(0);
}
#elif GROUP == 2
static void unsigned_ops(uint8_t t, uint8_t k) {
    if (t == 0) switch (k) { RANGES_I(i8, int8_t, INT8_MIN, INT8_MAX) default: ASSUME(0); }
    else if (t == 1) switch (k) { RANGES_I(i16, int16_t, INT16_MIN, INT16_MAX) default: ASSUME(0); }
    else if (t == 2) switch (k) { RANGES_I(i32, int32_t, INT32_MIN, INT32_MAX) default: ASSUME(0); }
    else if (t == 3) switch (k) { RANGES_I(i64, int64_t, INT64_MIN, INT64_MAX)
        case 3: mpack_expect_int_match(&reader, (int64_t)a); outcome(within_i((int64_t)a, (int64_t)a)); break;
        default: ASSUME(0); }
    else if (t == 4) switch (k) { RANGES_I(int, int, INT_MIN, INT_MAX) default: ASSUME(0); }
    else ASSUME(0);
}
#elif GROUP == 3
/* floating point */
static bool is_num(void) { return is_int() || (r.status == REF_OK && (r.type == REF_FLOAT || r.type == REF_DOUBLE)); }
static float as_f(uint32_t u) { union { uint32_t u; float f; } v; v.u = u; return v.f; }
static double as_d(uint64_t u) { union { uint64_t u; double d; } v; v.u = u; return v.d; }
static bool same_f(float x, float y) { return ref_float_bits(x) == ref_float_bits(y) || (x != x && y != y); }
static bool same_d(double x, double y) { return ref_double_bits(x) == ref_double_bits(y) || (x != x && y != y); }
static float want_f(void) {
    if (r.type == REF_UINT) return (float)r.u;
    if (r.type == REF_INT) return (float)r.i;
    if (r.type == REF_FLOAT) return as_f((uint32_t)r.u);
    return (float)as_d(r.u);
}
static double want_d(void) {
    if (r.type == REF_UINT) return (double)r.u;
    if (r.type == REF_INT) return (double)r.i;
    if (r.type == REF_FLOAT) return (double)as_f((uint32_t)r.u);
    return as_d(r.u);
}
static void unsigned_ops(uint8_t t, uint8_t k) {
    (void)k;
    bool num = is_num();
    bool fl = r.status == REF_OK && r.type == REF_FLOAT, db = r.status == REF_OK && r.type == REF_DOUBLE;
    switch (t) {
        case 0: { float v = mpack_expect_float(&reader); outcome(num); CHECK(same_f(v, num ? want_f() : 0.0f), "float value"); break; }
        case 1: { double v = mpack_expect_double(&reader); outcome(num); CHECK(same_d(v, num ? want_d() : 0.0), "double value"); break; }
        case 2: { float v = mpack_expect_float_strict(&reader); outcome(fl); CHECK(same_f(v, fl ? want_f() : 0.0f), "strict float"); break; }
        case 3: { double v = mpack_expect_double_strict(&reader); outcome(fl || db); CHECK(same_d(v, fl || db ? want_d() : 0.0), "strict double"); break; }
        case 4: { float lo = as_f((uint32_t)a), hi = as_f((uint32_t)b); ASSUME(lo <= hi);
            float v = mpack_expect_float_range(&reader, lo, hi); float w = num ? want_f() : 0.0f; bool ok = num && w >= lo && w <= hi;
            outcome(ok); CHECK(same_f(v, ok ? w : lo), "float range value"); break; }
        case 5: { double lo = as_d(a), hi = as_d(b); ASSUME(lo <= hi);
            double v = mpack_expect_double_range(&reader, lo, hi); double w = num ? want_d() : 0.0; bool ok = num && w >= lo && w <= hi;
            outcome(ok); CHECK(same_d(v, ok ? w : lo), "double range value"); break; }
        default: ASSUME(0);
    }
}
#else
/* counts, nil and booleans, which share the range and match machinery */
static bool is(ref_type_t t) { return r.status == REF_OK && r.type == t; }
static void unsigned_ops(uint8_t t, uint8_t k) {
    (void)k;
    uint32_t lo = (uint32_t)a, hi = (uint32_t)b, c = 77;
    bool m = is(REF_MAP), ar = is(REF_ARRAY), nil = is(REF_NIL), ok;
    switch (t) {
        case 0: { uint32_t v = mpack_expect_map(&reader); outcome(m); CHECK(v == (m ? r.len : 0), "map count"); break; }
        case 1: { ASSUME(lo <= hi); ok = m && r.len >= lo && r.len <= hi; uint32_t v = mpack_expect_map_range(&reader, lo, hi); outcome(ok); CHECK(v == (ok ? r.len : lo), "map range"); break; }
        case 2: { ok = m && r.len <= hi; uint32_t v = mpack_expect_map_max(&reader, hi); outcome(ok); CHECK(v == (ok ? r.len : 0), "map max"); break; }
        case 3: mpack_expect_map_match(&reader, lo); outcome(m && r.len == lo); break;
        case 4: { bool has = mpack_expect_map_or_nil(&reader, &c); outcome(m || nil); CHECK(has == m && c == (m ? r.len : 0), "map or nil"); break; }
        case 5: { ok = m && r.len <= hi; bool has = mpack_expect_map_max_or_nil(&reader, hi, &c); outcome(ok || nil); CHECK(has == ok && c == (ok ? r.len : 0), "map max or nil"); break; }
        case 6: { uint32_t v = mpack_expect_array(&reader); outcome(ar); CHECK(v == (ar ? r.len : 0), "array count"); break; }
        case 7: { ASSUME(lo <= hi); ok = ar && r.len >= lo && r.len <= hi; uint32_t v = mpack_expect_array_range(&reader, lo, hi); outcome(ok); CHECK(v == (ok ? r.len : lo), "array range"); break; }
        case 8: { ok = ar && r.len <= hi; uint32_t v = mpack_expect_array_max(&reader, hi); outcome(ok); CHECK(v == (ok ? r.len : 0), "array max"); break; }
        case 9: mpack_expect_array_match(&reader, lo); outcome(ar && r.len == lo); break;
        case 10: { bool has = mpack_expect_array_or_nil(&reader, &c); outcome(ar || nil); CHECK(has == ar && c == (ar ? r.len : 0), "array or nil"); break; }
        case 11: { ok = ar && r.len <= hi; bool has = mpack_expect_array_max_or_nil(&reader, hi, &c); outcome(ok || nil); CHECK(has == ok && c == (ok ? r.len : 0), "array max or nil"); break; }
        case 12: mpack_expect_nil(&reader); outcome(nil); break;
        case 13: { ok = is(REF_BOOL); bool v = mpack_expect_bool(&reader); outcome(ok); CHECK(v == (ok && r.b), "bool value, false on error"); break; }
        case 14: mpack_expect_true(&reader); outcome(is(REF_BOOL) && r.b); break;
        case 15: mpack_expect_false(&reader); outcome(is(REF_BOOL) && !r.b); break;
        case 16: { ok = is(REF_STR); uint32_t v = mpack_expect_str(&reader); outcome(ok); CHECK(v == (ok ? r.len : 0), "str length"); break; }
        case 17: { ok = is(REF_STR) && r.len <= hi; big_ok = is(REF_STR); uint32_t v = mpack_expect_str_max(&reader, hi); outcome(ok); CHECK(v == (ok ? r.len : 0), "str max"); break; }
        case 18: ok = is(REF_STR) && r.len == hi; mpack_expect_str_length(&reader, hi); outcome(ok); break;
        case 19: { ok = is(REF_BIN); uint32_t v = mpack_expect_bin(&reader); outcome(ok); CHECK(v == (ok ? r.len : 0), "bin length"); break; }
        case 20: { ok = is(REF_BIN) && r.len <= hi; uint32_t v = mpack_expect_bin_max(&reader, hi); outcome(ok); CHECK(v == (ok ? r.len : 0), "bin max"); break; }
        case 21: ok = is(REF_BIN) && r.len == hi; mpack_expect_bin_size(&reader, hi); outcome(ok); break;
#if MPACK_EXTENSIONS
        case 22: { int8_t et = 99; ok = is(REF_EXT); ASSUME(!(ok && r.exttype == -1)); uint32_t v = mpack_expect_ext(&reader, &et); outcome(ok); CHECK(v == (ok ? r.len : 0) && et == (ok ? r.exttype : 0), "ext"); break; }
        case 23: { int8_t et = 99; ok = is(REF_EXT) && r.len <= hi; ASSUME(!(ok && r.exttype == -1)); uint32_t v = mpack_expect_ext_max(&reader, &et, hi); outcome(ok); CHECK(v == (ok ? r.len : 0), "ext max"); if (ok) CHECK(et == r.exttype, "ext max type"); break; }
        case 24: { int8_t et = 99; ok = is(REF_EXT) && r.len == hi; ASSUME(!(ok && r.exttype == -1)); mpack_expect_ext_size(&reader, &et, hi); outcome(ok); if (ok) CHECK(et == r.exttype, "ext size type"); break; }
#endif
        default: ASSUME(0);
    }
}
#endif

int main(void) {
    uint8_t buf[N];
    for (int i = 0; i < N; ++i) buf[i] = sym_u8();
    n = sym_range(0, N);
    const uint8_t* p = buf + (N - n);
    r = ref_decode(p, n);
    mpack_reader_init_data(&reader, (const char*)p, n);
    a = sym_u64(); b = sym_u64();
    uint8_t t = sym_u8(), k = sym_u8();
    /* concrete operation in each case, so that only those of this harness are encoded */
    for (unsigned i = PART; i < 25; i += PARTS)
        if (t == i) {
            unsigned_ops((uint8_t)i, k);
            bool e = err();
            CHECK((mpack_reader_destroy(&reader) != mpack_ok) == e, "destroy returns the error state");
            END(c10);
            return 0;
        }
    ASSUME(0);
    return 0;
}
