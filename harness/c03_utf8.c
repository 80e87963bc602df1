/* C03: text writers (C strings, UTF-8 checked strings) write the string's bytes
 * with the right header, or nil for a null pointer, or flag invalid UTF-8. */
#include "ref.h"
#include "refenc.h"
#include "vf_lib.h"
#define L 5

int main(void) {
    uint8_t out[16], want[16];
    for (int i = 0; i < 16; ++i) { out[i] = 0x5a; want[i] = 0x5a; }
    uint8_t s[L + 1];
    size_t len = sym_range(0, L);
    for (size_t i = 0; i < L; ++i) s[i] = sym_u8();
    s[L] = 0;
    uint8_t op = sym_u8();
    mpack_writer_t w;
    mpack_writer_init(&w, (char*)out, sizeof(out));
    size_t n = 0;
    bool ok = true;
    const char* p = (const char*)s;
    if (op >= 1 && op <= 4) {   /* C strings: the length is where the first NUL is */
        s[len] = 0;
        for (size_t i = 0; i < L; ++i) if (i < len) ASSUME(s[i] != 0);
    }
    switch (op) {
        case 0: mpack_write_utf8(&w, p, (uint32_t)len); ok = ref_utf8(s, len, true); break;
        case 1: mpack_write_cstr(&w, p); break;
        case 2: mpack_write_cstr_or_nil(&w, p); break;
        case 3: mpack_write_utf8_cstr(&w, p); ok = ref_utf8(s, len, true); break;
        case 4: mpack_write_utf8_cstr_or_nil(&w, p); ok = ref_utf8(s, len, true); break;
        case 5: mpack_write_cstr_or_nil(&w, NULL); n = 1; break;
        case 6: mpack_write_utf8_cstr_or_nil(&w, NULL); n = 1; break;
        case 7: mpack_write_object_bytes(&w, p, len); break;
        default: ASSUME(0); return 0;
    }
    if (!ok) {
        CHECK(mpack_writer_error(&w) == mpack_error_invalid, "invalid UTF-8 must be flagged");
        CHECK(mpack_writer_destroy(&w) == mpack_error_invalid, "the error is reported");
        END(bad);
        return 0;
    }
    if (op == 5 || op == 6) want[0] = 0xc0;
    else {
        if (op == 7) n = 0; else { want[0] = (uint8_t)(0xa0 + len); n = 1; }
        for (size_t i = 0; i < L; ++i) if (i < len) want[n + i] = s[i];
        n += len;
    }
    CHECK(mpack_writer_error(&w) == mpack_ok, "valid text must be written");
    CHECK(mpack_writer_buffer_used(&w) == n, "encoded size");
    for (size_t i = 0; i < 16; ++i) CHECK(out[i] == want[i], "encoded bytes");
    CHECK(mpack_writer_destroy(&w) == mpack_ok, "no error");
    END(c03_utf8);
    return 0;
}
