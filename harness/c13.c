/* C13: a writer with a flush callback, the buffer filling at every position. */
#include "wdoc.h"
#include "shape.h"

#define CAP 320
static uint8_t got[CAP];
static size_t got_n;
static unsigned flushes, fail_flush, after_error, handler, torn;
static mpack_error_t reported;
static int ctx;
static void flush(mpack_writer_t* w, const char* p, size_t count) {
    CHECK(mpack_writer_context(w) == &ctx, "context");
    ++flushes;
    if (fail_flush && flushes > fail_flush) ++after_error;
    if (flushes == fail_flush) { mpack_writer_flag_error(w, mpack_error_io); return; }
    CHECK(count <= CAP - got_n, "no more bytes delivered than written");
    for (size_t i = 0; i < count; ++i) got[got_n + i] = (uint8_t)p[i];
    got_n += count;
}
static void on_error(mpack_writer_t* w, mpack_error_t e) { (void)w; ++handler; reported = e; }
static void teardown(mpack_writer_t* w) { (void)w; ++torn; }

static uint8_t fill[64];
static uint8_t want[CAP];
static size_t want_n;
static void expect(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) want[want_n + i] = p[i]; want_n += n; }

static void at(const uint8_t* doc, size_t len, size_t f) {
    char* buf = (char*)vf_malloc(BUF);
    mpack_writer_t w;
    mpack_writer_init(&w, buf, BUF);
    mpack_writer_set_context(&w, &ctx);
    mpack_writer_set_flush(&w, flush);
    mpack_writer_set_error_handler(&w, on_error);
    mpack_writer_set_teardown(&w, teardown);
    if (f > 0) { for (size_t i = 0; i < f; ++i) fill[i] = sym_u8(); mpack_write_object_bytes(&w, (const char*)fill, f); expect(fill, f); }
    emit(&w, doc, len, STYLE, 0);
    expect(doc, len);
    if (FAIL == 0) {
        if (MESSAGE) {
            CHECK(got_n + mpack_writer_buffer_used(&w) == want_n, "delivered and buffered bytes are all that was written");
            mpack_writer_flush_message(&w);
            CHECK(mpack_writer_error(&w) == mpack_ok && got_n == want_n && mpack_writer_buffer_used(&w) == 0, "a message flush delivers everything");
            mpack_write_u8(&w, 0x55); want[want_n++] = 0x55;
        }
        CHECK(mpack_writer_error(&w) == mpack_ok, "no error");
    }
    mpack_error_t e = mpack_writer_destroy(&w);
    CHECK(torn == 1, "teardown is called once");
    if (FAIL != 0 && flushes >= FAIL) {
        CHECK(e == mpack_error_io && handler == 1 && reported == mpack_error_io, "the callback's failure is the final error");
        CHECK(after_error == 0, "no call after the failure");
        CHECK(got_n <= want_n, "delivered bytes are a prefix");
    } else {
        CHECK(e == mpack_ok && handler == 0, "no error");
        CHECK(got_n == want_n, "everything is delivered");
    }
    for (size_t i = 0; i < got_n; ++i) CHECK(got[i] == want[i], "delivered bytes are the bytes written, in order");
    vf_free(buf);
}
static void run(uint8_t* p, size_t n) {
    uint8_t s = sym_u8();
    fail_flush = FAIL;
    for (size_t f = FLO; f <= FHI; f += FSTEP) {
        if (s != f) continue;
        at(p, n, f);
        END(c13);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
