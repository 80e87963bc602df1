/* C12: two integers of any value into a buffer of every size. */
#include "ref.h"
#include "refenc.h"
#include "vf_lib.h"
static uint8_t want[20];
static void at(size_t size, unsigned op) {
    char* buf = (char*)vf_malloc(size);
    uint64_t a = sym_u64(), b = sym_u64();
    size_t n;
    mpack_writer_t w;
    mpack_writer_init(&w, buf, size);
    switch (op) {
        case 0: mpack_write_i64(&w, (int64_t)a); n = ref_enc_int(want, (int64_t)a); break;
        case 1: mpack_write_u32(&w, (uint32_t)a); n = ref_enc_uint(want, (uint32_t)a); break;
        case 2: mpack_write_i16(&w, (int16_t)a); n = ref_enc_int(want, (int16_t)a); break;
        case 3: mpack_write_i32(&w, (int32_t)a); n = ref_enc_int(want, (int32_t)a); break;
        case 4: mpack_start_array(&w, (uint32_t)a); n = ref_enc_array(want, (uint32_t)a); break;
        case 5: mpack_start_map(&w, (uint32_t)a); n = ref_enc_map(want, (uint32_t)a); break;
        case 6: mpack_start_str(&w, (uint32_t)a); n = ref_enc_str(want, (uint32_t)a, false); break;
        case 7: mpack_start_bin(&w, (uint32_t)a); n = ref_enc_bin(want, (uint32_t)a, false); break;
        case 8: mpack_start_ext(&w, (int8_t)b, (uint32_t)a); n = ref_enc_ext(want, (int8_t)b, (uint32_t)a); break;
        default: { uint32_t ns = (uint32_t)b; ASSUME(ns < 1000000000u); mpack_write_timestamp(&w, (int64_t)a, ns); n = ref_enc_timestamp(want, (int64_t)a, ns); break; }
    }
    bool fits = n <= size;
    if (op <= 3 && op != 0) {
        if (!fits) CHECK(mpack_writer_error(&w) == mpack_error_too_big, "does not fit");
        mpack_write_u64(&w, b);
        size_t m = ref_enc_uint(want + n, b);
        fits = fits && n + m <= size;
        n += m;
    }
    CHECK(mpack_writer_error(&w) == (fits ? mpack_ok : mpack_error_too_big), "too big exactly when the encoding does not fit");
    if (fits) {
        CHECK(mpack_writer_buffer_used(&w) == n, "used");
        for (size_t i = 0; i < 20; ++i) if (i < n && i < size) CHECK((uint8_t)buf[i] == want[i], "the buffer holds the concatenated encodings");
    }
    CHECK(mpack_writer_destroy(&w) == (fits ? mpack_ok : mpack_error_too_big), "final error");
    vf_free(buf);
}
int main(void) {
    uint8_t s = sym_u8(), op = sym_u8();
    for (size_t size = 0; size <= 18; ++size) {
        if (s != size) continue;
        for (unsigned k = OPLO; k <= OPHI; ++k) {
            if (op != k) continue;
            at(size, k);
            END(c12i);
            STOP();
        }
        ASSUME(0); STOP();
    }
    ASSUME(0);
    return 0;
}
