/* C03: strings, binary and extension data with their payload, every 32-bit
 * length. The flush callback records the bytes it receives; payloads that do
 * not fit the 32-byte buffer must arrive as the caller's own pointer and length,
 * so no bound on the length is needed. */
#include "ref.h"
#include "refenc.h"
#include "vf_lib.h"

#define CAP 64
static uint8_t got[CAP];
static size_t got_n;
static const char* ext_ptr;      /* a payload too large to be buffered */
static size_t ext_count;
static unsigned ext_calls;
static uint8_t data[40];

static void flush(mpack_writer_t* w, const char* p, size_t count) {
    (void)w;
    if (p == (const char*)data) { ++ext_calls; ext_ptr = p; ext_count = count; return; }
    CHECK(ext_calls == 0, "buffered bytes follow the payload");
    CHECK(count <= CAP - got_n, "more bytes delivered than written");
    for (size_t i = 0; i < count; ++i) got[got_n + i] = (uint8_t)p[i];
    got_n += count;
}

int main(void) {
    char buf[MPACK_WRITER_MINIMUM_BUFFER_SIZE];
    mpack_writer_t w;
    mpack_writer_init(&w, buf, sizeof(buf));
    mpack_writer_set_flush(&w, flush);
    bool v4 = false;
#if MPACK_COMPATIBILITY
    if (sym_bool()) { v4 = true; mpack_writer_set_version(&w, mpack_version_v4); }
#endif
    for (int i = 0; i < 40; ++i) data[i] = sym_u8();
    uint8_t hdr[8];
    size_t hn;
    uint32_t count = sym_u32();
    int8_t et = (int8_t)sym_u8();
    switch (sym_u8()) {
        case 0: mpack_write_str(&w, (const char*)data, count); hn = ref_enc_str(hdr, count, v4); break;
        case 1: mpack_write_bin(&w, (const char*)data, count); hn = ref_enc_bin(hdr, count, v4); break;
        case 2:
            mpack_write_ext(&w, et, (const char*)data, count);
            if (v4) {
                CHECK(mpack_writer_destroy(&w) == mpack_error_bug, "no extension types in the old version");
                CHECK(got_n == 0 && ext_calls == 0, "nothing delivered on error");
                return 0;
            }
            hn = ref_enc_ext(hdr, et, count); break;
        case 3: /* in two steps */
            mpack_start_str(&w, count); mpack_write_bytes(&w, (const char*)data, count); mpack_finish_str(&w);
            hn = ref_enc_str(hdr, count, v4); break;
        default: ASSUME(0); return 0;
    }
    CHECK(mpack_writer_error(&w) == mpack_ok, "writing valid data must not fail");
    CHECK(mpack_writer_destroy(&w) == mpack_ok, "destroy without error");
    size_t payload = got_n - hn;
    CHECK(got_n >= hn, "header missing");
    for (size_t i = 0; i < 8; ++i)
        if (i < hn) CHECK(got[i] == hdr[i], "header differs from the specification");
    if (ext_calls != 0) {
        CHECK(ext_calls == 1 && ext_count == count && payload == 0, "payload passed through once, whole");
        CHECK(count > 30, "short payload");
    } else {
        CHECK(payload == count, "payload length");
        for (size_t i = 0; i < 40; ++i)
            if (i < payload) CHECK(got[hn + i] == data[i], "payload bytes");
    }
    END(c03_str);
    return 0;
}
