/* C09 for trees. PRE 0: an error is flagged on a parsed tree, then every
 * accessor and both parse calls. PRE 1: parsing or the first accessor fails by
 * itself (malformed data, type mismatches, failing allocations, failing read
 * functions). */
#include "ref.h"
#include "vf_lib.h"
#include "tree.h"
#include "shape.h"
static unsigned calls, reads;
static mpack_error_t reported;
static mpack_tree_t t;
static void on_error(mpack_tree_t* x, mpack_error_t e) {
    CHECK(x == &t && e != mpack_ok && mpack_tree_error(x) == e, "the handler is given the tree and its error");
    ++calls; reported = e;
}
static uint8_t data[64]; static size_t len, pos; static unsigned io_at; static bool io_flag;
static size_t rd(mpack_tree_t* x, char* b, size_t n) {
    CHECK(mpack_tree_error(x) == mpack_ok, "no read callback in an error state");
    if (++reads == io_at) { if (io_flag) mpack_tree_flag_error(x, mpack_error_data); return io_flag ? 0 : (size_t)-1; }
    size_t c = len - pos; if (c > n) c = n; if (c > 3) c = 3;
    for (size_t i = 0; i < c; ++i) b[i] = (char)data[pos + i];
    pos += c; return c;
}
static const mpack_error_t es[] = {mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};
static void state(mpack_error_t first) {
    CHECK(mpack_tree_error(&t) == first, "the first error is never cleared or replaced");
    CHECK(calls == (first != mpack_ok) && (calls == 0 || reported == first), "the error handler is called exactly once, with the first error");
}
static char o[4];
static const char* names[2] = {"a", "bc"};
static bool nilnode(mpack_node_t n) { return mpack_node_type(n) == mpack_type_nil; }
#define TOPS 75
static bool nop(unsigned op, mpack_node_t n) {
    o[0] = o[1] = o[2] = o[3] = 'x';
    switch (op) {
        case 0: return mpack_node_u8(n) == 0;
        case 1: return mpack_node_u16(n) == 0;
        case 2: return mpack_node_u32(n) == 0;
        case 3: return mpack_node_u64(n) == 0;
        case 4: return mpack_node_uint(n) == 0;
        case 5: return mpack_node_i8(n) == 0;
        case 6: return mpack_node_i16(n) == 0;
        case 7: return mpack_node_i32(n) == 0;
        case 8: return mpack_node_i64(n) == 0;
        case 9: return mpack_node_int(n) == 0;
        case 10: return ref_float_bits(mpack_node_float(n)) == 0;
        case 11: return ref_float_bits(mpack_node_float_strict(n)) == 0;
        case 12: return ref_double_bits(mpack_node_double(n)) == 0;
        case 13: return ref_double_bits(mpack_node_double_strict(n)) == 0;
        case 14: return mpack_node_bool(n) == false;
        case 15: mpack_node_true(n); return true;
        case 16: mpack_node_false(n); return true;
        case 17: mpack_node_nil(n); return true;
        case 18: mpack_node_missing(n); return true;
        case 19: return mpack_node_type(n) == mpack_type_nil;
        case 20: { mpack_tag_t g = mpack_node_tag(n); return mpack_tag_type(&g) == mpack_type_nil; }
        case 21: return mpack_node_str(n) == NULL;
        case 22: return mpack_node_strlen(n) == 0;
        case 23: return mpack_node_data(n) == NULL;
        case 24: return mpack_node_data_len(n) == 0;
        case 25: return mpack_node_bin_data(n) == NULL;
        case 26: return mpack_node_bin_size(n) == 0;
        case 27: mpack_node_copy_cstr(n, o, 4); return o[0] == 0;
        case 28: mpack_node_copy_utf8_cstr(n, o, 4); return o[0] == 0;
        case 29: return mpack_node_copy_data(n, o, 4) == 0 && o[0] == 'x';
        case 30: return mpack_node_copy_utf8(n, o, 4) == 0 && o[0] == 'x';
        case 31: { char* s = mpack_node_cstr_alloc(n, 4); vf_free(s); return s == NULL; }
        case 32: { char* s = mpack_node_utf8_cstr_alloc(n, 4); vf_free(s); return s == NULL; }
        case 33: { char* s = mpack_node_data_alloc(n, 4); vf_free(s); return s == NULL; }
        case 34: { mpack_timestamp_t s = mpack_node_timestamp(n); return s.seconds == 0 && s.nanoseconds == 0; }
        case 35: return mpack_node_timestamp_seconds(n) == 0;
        case 36: return mpack_node_timestamp_nanoseconds(n) == 0;
        case 37: return mpack_node_exttype(n) == 0;
        case 38: return mpack_node_array_length(n) == 0;
        case 39: return mpack_node_map_count(n) == 0;
        case 40: return nilnode(mpack_node_array_at(n, 0));
        case 41: return nilnode(mpack_node_map_key_at(n, 0));
        case 42: return nilnode(mpack_node_map_value_at(n, 0));
        case 43: return nilnode(mpack_node_map_int(n, 1));
        case 44: return nilnode(mpack_node_map_uint(n, 1));
        case 45: return nilnode(mpack_node_map_str(n, "a", 1));
        case 46: return nilnode(mpack_node_map_cstr(n, "a"));
        case 47: return nilnode(mpack_node_map_int_optional(n, 1));
        case 48: return nilnode(mpack_node_map_uint_optional(n, 1));
        case 49: return nilnode(mpack_node_map_str_optional(n, "a", 1));
        case 50: return nilnode(mpack_node_map_cstr_optional(n, "a"));
        case 51: return !mpack_node_map_contains_int(n, 1);
        case 52: return !mpack_node_map_contains_uint(n, 1);
        case 53: return !mpack_node_map_contains_str(n, "a", 1);
        case 54: return !mpack_node_map_contains_cstr(n, "a");
        case 55: return mpack_node_enum(n, names, 2) == 2;
        case 56: return mpack_node_enum_optional(n, names, 2) == 2;
        case 57: mpack_node_check_utf8(n); return true;
        case 58: mpack_node_check_utf8_cstr(n); return true;
        case 59: return mpack_node_is_nil(n);
        case 60: return !mpack_node_is_missing(n);
        case 61: mpack_node_flag_error(n, mpack_error_eof); return true;
        case 62: mpack_tree_flag_error(&t, mpack_error_unsupported); return true;
        case 63: mpack_tree_parse(&t); return true;
        case 64: return !mpack_tree_try_parse(&t);
        case 65: return nilnode(mpack_tree_root(&t));
        case 66: return mpack_node_error(n) == mpack_tree_error(&t);
        case 67: return nilnode(mpack_node_array_at(n, 5));
        case 68: return nilnode(mpack_node_map_value_at(n, 9));
        case 69: return nilnode(mpack_node_map_int(n, 99));
        case 70: return nilnode(mpack_node_map_cstr(n, "zz"));
        case 71: mpack_node_copy_cstr(n, o, 1); return o[0] == 0;
        case 72: return mpack_node_copy_data(n, o, 0) == 0;
        case 73: { char* s = mpack_node_cstr_alloc(n, 1); vf_free(s); return s == NULL; }
        default: return nilnode(mpack_node_map_key_at(n, 9));
    }
}
static uint32_t sel_op;
static void after(unsigned op, unsigned how, mpack_node_t root, mpack_node_t kid, mpack_error_t e);
static void one(unsigned h, unsigned how) {
#if STREAM
    mpack_tree_init_stream(&t, rd, NULL, 64, 64);
#else
    mpack_tree_init_data(&t, (const char*)data, len);
#endif
    mpack_tree_set_error_handler(&t, on_error);
#if PRE == 1
    if (how < 10) vf_fail_at = vf_malloc_calls + how; else { io_at = how & 3; io_flag = how & 4; }
#endif
    mpack_tree_parse(&t);
    mpack_error_t e = mpack_tree_error(&t);
    state(e);
    mpack_node_t root = mpack_tree_root(&t), kid = root;
    if (mpack_node_type(root) == mpack_type_array && mpack_node_array_length(root) > 0) kid = mpack_node_array_at(root, 0);
    /* parsed once; one case per call */
    for (unsigned k = 0; k < TOPS; ++k) {
        if (sel_op != k || h % EVERY != k % EVERY) continue;
        if (VF_TWIN && k > 12) continue;
        after(k, how, root, kid, e);
        STOPV();
    }
    ASSUME(0);
}
static void after(unsigned op, unsigned how, mpack_node_t root, mpack_node_t kid, mpack_error_t e) {
    mpack_node_t n = root;
    (void)n; (void)how;
#if PRE == 0
    ASSUME(e == mpack_ok);
    if ((op + how) & 1) n = kid;
    mpack_tree_flag_error(&t, e = es[how]);
    state(e);
    unsigned r = reads, m = vf_malloc_calls;
    CHECK(nop(op, n), "a call in an error state returns its safe default");
#else
    unsigned r = reads, m;
    bool def = nop(op, root);
    if (mpack_tree_error(&t) != mpack_ok) {
        if (op != 63 && op != 64) CHECK(reads == r, "accessors read nothing");
        if (e == mpack_ok) { e = mpack_tree_error(&t); }
        state(e);
        CHECK(def, "a failing call returns its safe default");
        r = reads; m = vf_malloc_calls;
        CHECK(nop(21, kid) && nop(27, kid) && nop(40, kid) && nop(46, kid) && nop(31, kid) && nop(64, kid) && nop(61, kid), "a call in an error state returns its safe default");
    } else { r = reads; m = vf_malloc_calls; }
#endif
    state(e);
    CHECK(reads == r && vf_malloc_calls == m, "nothing is read or allocated in an error state");
    CHECK(mpack_tree_destroy(&t) == e, "destruction reports the first error");
    CHECK(calls == (e != mpack_ok), "destruction does not report again");
    CHECK(vf_live == 0, "nothing is left allocated");
    END(c09);
}
static void run(uint8_t* p, size_t n) {
    static const uint8_t hows[] = {HOWS};
    for (size_t i = 0; i < n; ++i) data[i] = p[i];
    len = n; pos = 0; vf_malloc_cap = 4096;
    uint8_t s = sym_u8();
    sel_op = sym_u8();
    for (unsigned h = 0; h < sizeof(hows); ++h) {
        if (s != h) continue;
        one(h, hows[h]);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
