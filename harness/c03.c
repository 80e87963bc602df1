/* C03: every value is written in the specified, shortest encoding. */
#include "ref.h"
#include "refenc.h"
#include "vf_lib.h"

int main(void) {
    uint8_t out[24];
    uint8_t want[24];
    size_t n = 0;
    mpack_error_t want_err = mpack_ok;
    for (int i = 0; i < 24; ++i) { out[i] = 0x5a; want[i] = 0x5a; }

    mpack_writer_t w;
    mpack_writer_init(&w, (char*)out, sizeof(out));
    bool v4 = false;
#if MPACK_COMPATIBILITY
    if (sym_bool()) { v4 = true; mpack_writer_set_version(&w, mpack_version_v4); }
#endif
    uint8_t op = sym_u8();
    uint64_t v = sym_u64();
    uint32_t c = (uint32_t)v;
    int8_t et = (int8_t)(v >> 32);
    bool ext_v4 = false;

    switch (op) {
        case 0: mpack_write_u8(&w, (uint8_t)v);   n = ref_enc_uint(want, (uint8_t)v); break;
        case 1: mpack_write_u16(&w, (uint16_t)v); n = ref_enc_uint(want, (uint16_t)v); break;
        case 2: mpack_write_u32(&w, (uint32_t)v); n = ref_enc_uint(want, (uint32_t)v); break;
        case 3: mpack_write_u64(&w, v);           n = ref_enc_uint(want, v); break;
        case 4: mpack_write_uint(&w, v);          n = ref_enc_uint(want, v); break;
        case 5: mpack_write_i8(&w, (int8_t)v);    n = ref_enc_int(want, (int8_t)v); break;
        case 6: mpack_write_i16(&w, (int16_t)v);  n = ref_enc_int(want, (int16_t)v); break;
        case 7: mpack_write_i32(&w, (int32_t)v);  n = ref_enc_int(want, (int32_t)v); break;
        case 8: mpack_write_i64(&w, (int64_t)v);  n = ref_enc_int(want, (int64_t)v); break;
        case 9: mpack_write_int(&w, (int64_t)v);  n = ref_enc_int(want, (int64_t)v); break;
        case 10: mpack_write_nil(&w);   want[0] = 0xc0; n = 1; break;
        case 11: mpack_write_true(&w);  want[0] = 0xc3; n = 1; break;
        case 12: mpack_write_false(&w); want[0] = 0xc2; n = 1; break;
        case 13: mpack_write_bool(&w, (v & 1) != 0); want[0] = (v & 1) ? 0xc3 : 0xc2; n = 1; break;
#if MPACK_FLOAT
        case 14: { union { uint32_t u; float f; } x; x.u = c; mpack_write_float(&w, x.f); n = ref_put(want, 0xca, c, 4); break; }
#else
        case 14: mpack_write_raw_float(&w, c); n = ref_put(want, 0xca, c, 4); break;
#endif
#if MPACK_DOUBLE
        case 15: { union { uint64_t u; double d; } x; x.u = v; mpack_write_double(&w, x.d); n = ref_put(want, 0xcb, v, 8); break; }
#else
        case 15: mpack_write_raw_double(&w, v); n = ref_put(want, 0xcb, v, 8); break;
#endif
        case 16: mpack_start_array(&w, c); n = ref_enc_array(want, c); break;
        case 17: mpack_start_map(&w, c);   n = ref_enc_map(want, c); break;
        case 18: mpack_start_str(&w, c);   n = ref_enc_str(want, c, v4); break;
        case 19: mpack_start_bin(&w, c);   n = ref_enc_bin(want, c, v4); break;
#if MPACK_EXTENSIONS
        case 20: mpack_start_ext(&w, et, c); n = ref_enc_ext(want, et, c); ext_v4 = v4; break;
#endif
        default: {
            /* the same through a tag */
            mpack_tag_t tag;
            switch (op) {
                case 30: tag = mpack_tag_make_nil(); want[0] = 0xc0; n = 1; break;
                case 31: tag = mpack_tag_make_bool((v & 1) != 0); want[0] = (v & 1) ? 0xc3 : 0xc2; n = 1; break;
                case 32: tag = mpack_tag_make_uint(v); n = ref_enc_uint(want, v); break;
                case 33: tag = mpack_tag_make_int((int64_t)v); n = ref_enc_int(want, (int64_t)v); break;
                case 34: tag = mpack_tag_make_str(c); n = ref_enc_str(want, c, v4); break;
                case 35: tag = mpack_tag_make_bin(c); n = ref_enc_bin(want, c, v4); break;
                case 36: tag = mpack_tag_make_array(c); n = ref_enc_array(want, c); break;
                case 37: tag = mpack_tag_make_map(c); n = ref_enc_map(want, c); break;
#if MPACK_FLOAT
                case 38: { union { uint32_t u; float f; } x; x.u = c; tag = mpack_tag_make_float(x.f); n = ref_put(want, 0xca, c, 4); break; }
#endif
#if MPACK_DOUBLE
                case 39: { union { uint64_t u; double d; } x; x.u = v; tag = mpack_tag_make_double(x.d); n = ref_put(want, 0xcb, v, 8); break; }
#endif
#if MPACK_EXTENSIONS
                case 40: tag = mpack_tag_make_ext(et, c); n = ref_enc_ext(want, et, c); ext_v4 = v4; break;
#endif
                default: ASSUME(0); return 0;
            }
            mpack_write_tag(&w, tag);
            break;
        }
    }
    if (ext_v4) {
        CHECK(mpack_writer_error(&w) == mpack_error_bug, "extension types are a bug in the old version");
        CHECK(mpack_writer_destroy(&w) == mpack_error_bug, "the error is reported");
        END(v4);
        return 0;
    }
    size_t used = mpack_writer_buffer_used(&w);
    CHECK(mpack_writer_error(&w) == mpack_ok, "writing a valid value must not fail");
    CHECK(used == n, "encoded size differs from the shortest specified form");
    for (int i = 0; i < 24; ++i)
        CHECK(out[i] == want[i], "encoded bytes differ from the specification");
    /* nothing written is left open in release mode; destroy must succeed */
    CHECK(mpack_writer_destroy(&w) == want_err, "final error");
    END(c03);
    return 0;
}
