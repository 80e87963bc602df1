/* Every reader and expect function once; each returns true when it returned
 * its documented safe default (functions without a result: true). */
#ifndef C09_OPS_H
#define C09_OPS_H 1
#define ROPS 117
static char o_buf[4];
static const char* o_names[2] = {"a", "bc"};
static bool same_d(double d, uint64_t u) { return ref_double_bits(d) == u; }
static bool same_f(float d, uint32_t u) { return ref_float_bits(d) == u; }
static bool is_nil_tag(mpack_tag_t t) { return mpack_tag_type(&t) == mpack_type_nil; }
static void fresh(void) { o_buf[0] = o_buf[1] = o_buf[2] = o_buf[3] = 'x'; }
#define NUM(k, name, T) \
    case k: return mpack_expect_##name(r) == 0; \
    case k + 1: { T lo = (T)a, hi = (T)b; ASSUME(lo <= hi); return mpack_expect_##name##_range(r, lo, hi) == lo; } \
    case k + 2: { T hi = (T)b; ASSUME(hi >= 0); return mpack_expect_##name##_max(r, hi) == 0; }
static bool rop(unsigned op, mpack_reader_t* r) {
    uint64_t a = ROP_A, b = ROP_B;
    int8_t ty = 5; uint32_t c = 77; size_t sz = 77; bool found[3] = {0, 0, 0};
    fresh();
    switch (op) {
        NUM(0, u8, uint8_t) NUM(3, u16, uint16_t) NUM(6, u32, uint32_t) NUM(9, u64, uint64_t)
        NUM(12, i8, int8_t) NUM(15, i16, int16_t) NUM(18, i32, int32_t) NUM(21, i64, int64_t)
        NUM(24, int, int) NUM(27, uint, unsigned)
        case 30: return same_f(mpack_expect_float(r), 0);
        case 31: return same_f(mpack_expect_float_strict(r), 0);
        case 32: return same_d(mpack_expect_double(r), 0);
        case 33: return same_d(mpack_expect_double_strict(r), 0);
        case 34: return same_f(mpack_expect_float_range(r, 1.0f, 2.0f), 0x3f800000);
        case 35: return same_d(mpack_expect_double_range(r, 1.0, 2.0), 0x3ff0000000000000ull);
        case 36: mpack_expect_uint_match(r, a); return true;
        case 37: mpack_expect_int_match(r, (int64_t)a); return true;
        case 38: mpack_expect_nil(r); return true;
        case 39: return mpack_expect_bool(r) == false;
        case 40: mpack_expect_true(r); return true;
        case 41: mpack_expect_false(r); return true;
        case 42: { mpack_timestamp_t t = mpack_expect_timestamp(r); return t.seconds == 0 && t.nanoseconds == 0; }
        case 43: return mpack_expect_timestamp_truncate(r) == 0;
        case 44: return mpack_expect_map(r) == 0;
        case 45: { uint32_t lo = (uint32_t)a, hi = (uint32_t)b; ASSUME(lo <= hi); return mpack_expect_map_range(r, lo, hi) == lo; }
        case 46: return mpack_expect_map_max(r, (uint32_t)a) == 0;
        case 47: mpack_expect_map_match(r, (uint32_t)a); return true;
        case 48: { bool h = mpack_expect_map_or_nil(r, &c); return !h && c == 0; }
        case 49: { bool h = mpack_expect_map_max_or_nil(r, (uint32_t)a, &c); return !h && c == 0; }
        case 50: return mpack_expect_array(r) == 0;
        case 51: { uint32_t lo = (uint32_t)a, hi = (uint32_t)b; ASSUME(lo <= hi); return mpack_expect_array_range(r, lo, hi) == lo; }
        case 52: return mpack_expect_array_max(r, (uint32_t)a) == 0;
        case 53: mpack_expect_array_match(r, (uint32_t)a); return true;
        case 54: { bool h = mpack_expect_array_or_nil(r, &c); return !h && c == 0; }
        case 55: { bool h = mpack_expect_array_max_or_nil(r, (uint32_t)a, &c); return !h && c == 0; }
        case 56: { uint64_t* p = mpack_expect_array_alloc(r, uint64_t, 3, &c); vf_free(p); return p == NULL && c == 0; }
        case 57: { uint64_t* p = mpack_expect_array_or_nil_alloc(r, uint64_t, 3, &c); vf_free(p); return p == NULL && c == 0; }
        case 58: return mpack_expect_str(r) == 0;
        case 59: return mpack_expect_str_buf(r, o_buf, 4) == 0;
        case 60: return mpack_expect_utf8(r, o_buf, 4) == 0;
        case 61: return mpack_expect_str_max(r, (uint32_t)a) == 0;
        case 62: mpack_expect_str_length(r, (uint32_t)a); return true;
        case 63: mpack_expect_cstr(r, o_buf, 4); return o_buf[0] == 0;
        case 64: mpack_expect_utf8_cstr(r, o_buf, 4); return o_buf[0] == 0;
        case 65: { char* p = mpack_expect_cstr_alloc(r, 4); vf_free(p); return p == NULL; }
        case 66: { char* p = mpack_expect_utf8_cstr_alloc(r, 4); vf_free(p); return p == NULL; }
        case 67: mpack_expect_str_match(r, "ab", 2); return true;
        case 68: mpack_expect_cstr_match(r, "ab"); return true;
        case 69: return mpack_expect_bin(r) == 0;
        case 70: return mpack_expect_bin_max(r, (uint32_t)a) == 0;
        case 71: mpack_expect_bin_size(r, (uint32_t)a); return true;
        case 72: return mpack_expect_bin_buf(r, o_buf, 4) == 0;
        case 73: mpack_expect_bin_size_buf(r, o_buf, 2); return true;
        case 74: { char* p = mpack_expect_bin_alloc(r, 4, &sz); vf_free(p); return p == NULL && sz == 0; }
        case 75: return mpack_expect_ext(r, &ty) == 0 && ty == 0;
        case 76: return mpack_expect_ext_max(r, &ty, (uint32_t)a) == 0;
        case 77: mpack_expect_ext_size(r, &ty, (uint32_t)a); return true;
        case 78: return mpack_expect_ext_buf(r, &ty, o_buf, 4) == 0 && ty == 0;
        case 79: { char* p = mpack_expect_ext_alloc(r, &ty, 4, &sz); vf_free(p); return p == NULL && sz == 0 && ty == 0; }
        case 80: mpack_expect_tag(r, mpack_tag_make_uint(a)); return true;
        case 81: return mpack_expect_enum(r, o_names, 2) == 2;
        case 82: return mpack_expect_enum_optional(r, o_names, 2) == 2;
        case 83: return mpack_expect_key_uint(r, found, 3) == 3;
        case 84: return mpack_expect_key_cstr(r, o_names, found, 2) == 2;
        case 85: return is_nil_tag(mpack_read_tag(r));
        case 86: return is_nil_tag(mpack_peek_tag(r));
        case 87: mpack_skip_bytes(r, (size_t)a); return true;
        case 88: mpack_read_bytes(r, o_buf, 2); return o_buf[0] == 0 && o_buf[1] == 0;
        case 89: mpack_read_utf8(r, o_buf, 2); return true;
        case 90: mpack_read_cstr(r, o_buf, 4, 2); return o_buf[0] == 0;
        case 91: mpack_read_utf8_cstr(r, o_buf, 4, 2); return o_buf[0] == 0;
        case 92: { char* p = mpack_read_bytes_alloc(r, 2); vf_free(p); return p == NULL; }
        case 93: return mpack_read_bytes_inplace(r, 2) == NULL;
        case 94: return mpack_read_utf8_inplace(r, 2) == NULL;
        case 95: return mpack_should_read_bytes_inplace(r, 2) == true || true;
        case 96: { mpack_timestamp_t t = mpack_read_timestamp(r, 4 << (a & 1)); return t.seconds == 0 && t.nanoseconds == 0; }
        case 97: mpack_discard(r); return true;
        case 98: mpack_done_array(r); return true;
        case 99: mpack_done_map(r); return true;
        case 100: mpack_done_str(r); return true;
        case 101: mpack_done_bin(r); return true;
        case 102: mpack_done_ext(r); return true;
        case 103: mpack_done_type(r, mpack_type_map); return true;
        case 104: return mpack_reader_remaining(r, NULL) == 0;
        case 105: mpack_reader_flag_error(r, mpack_error_eof); return true;
        case 106: return mpack_reader_flag_if_error(r, mpack_error_unsupported) == mpack_reader_error(r);
        case 107: return mpack_expect_str_buf(r, o_buf, 0) == 0;
        case 108: mpack_skip_bytes(r, 0); return true;
        case 109: { char* p = mpack_read_bytes_alloc(r, 0); vf_free(p); return p == NULL; }
        case 110: return mpack_expect_key_uint(r, found, 0) == 0;
        case 111: return mpack_expect_bin_buf(r, o_buf, 0) == 0;
        case 112: mpack_expect_str_match(r, "", 0); return true;
        case 113: mpack_read_bytes(r, o_buf, 0); return true;
        case 114: { const char* p = o_buf; size_t n = mpack_reader_remaining(r, &p); return n == 0; }
        case 115: mpack_expect_int_match(r, -5); return true;
        default: return mpack_expect_enum(r, o_names, 0) == 0;
    }
}
#endif
