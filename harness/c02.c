/* C02: every header decodes as specified (read_tag, peek_tag). */
#include "ref.h"
#include "vf_lib.h"
#define N 10

int main(void) {
    uint8_t buf[N];
    for (int i = 0; i < N; ++i) buf[i] = sym_u8();
    size_t n = sym_range(0, N);
    const uint8_t* p = buf + (N - n);   /* end-aligned: an over-read leaves the array */

    ref_tag_t r = ref_decode(p, n);

    mpack_reader_t reader;
    mpack_reader_init_data(&reader, (const char*)p, n);
    bool peek = sym_bool();
    mpack_tag_t tag;
    if (peek) {
        tag = mpack_peek_tag(&reader);
    } else {
        tag = mpack_read_tag(&reader);
    }
    mpack_error_t err = mpack_reader_error(&reader);

#if !MPACK_EXTENSIONS
    if (n > 0 && ((p[0] >= 0xc7 && p[0] <= 0xc9) || (p[0] >= 0xd4 && p[0] <= 0xd8))) {
        CHECK(err == mpack_error_unsupported, "ext must be unsupported without extensions");
        CHECK(mpack_tag_type(&tag) == mpack_type_nil, "nil tag on error");
        END(ext);
        return 0;
    }
#endif

    if (r.status == REF_OK) {
        CHECK(err == mpack_ok, "well-formed header must be accepted");
        CHECK(ref_tag_is(tag, &r), "decoded tag differs from the specification");
        const char* rest = NULL;
        size_t left = mpack_reader_remaining(&reader, &rest);
        CHECK(left == n - (peek ? 0 : r.size), "wrong number of header bytes consumed");
        CHECK(rest == (const char*)p + (peek ? 0 : r.size), "read position differs");
        if (peek) {
            mpack_tag_t again = mpack_read_tag(&reader);
            CHECK(mpack_reader_error(&reader) == mpack_ok && ref_tag_is(again, &r), "read after peek differs");
            CHECK(mpack_reader_remaining(&reader, NULL) == n - r.size, "read after peek consumed a different size");
        }
    } else {
        CHECK(err == mpack_error_invalid, "reserved or truncated header must be invalid");
        CHECK(mpack_tag_type(&tag) == mpack_type_nil, "nil tag on error");
        CHECK(mpack_reader_remaining(&reader, NULL) == 0, "no data remains after an error");
    }
    mpack_error_t fin = mpack_reader_destroy(&reader);
    CHECK(fin == err, "destroy returns the error state");
    END(c02);
    return 0;
}
