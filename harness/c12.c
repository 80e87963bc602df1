/* C12: writing into a caller-supplied buffer of every size. */
#include "wdoc.h"
#include "shape.h"

static uint8_t* doc;
static size_t len;
static unsigned calls;
static void on_error(mpack_writer_t* w, mpack_error_t e) { (void)w; ++calls; CHECK(e == mpack_error_too_big, "the only error is too big"); }
static void at(size_t size, unsigned style) {
    char* buf = (char*)vf_malloc(size);
    mpack_writer_t w;
    mpack_writer_init(&w, buf, size);
    mpack_writer_set_error_handler(&w, on_error);
    CHECK(mpack_writer_buffer_size(&w) == size && mpack_writer_buffer_left(&w) == size && mpack_writer_buffer_used(&w) == 0, "an empty buffer");
    emit(&w, doc, len, style, 0);
    bool fits = len <= size;
    CHECK(mpack_writer_error(&w) == (fits ? mpack_ok : mpack_error_too_big), "too big exactly when the encoding does not fit");
    CHECK(calls == !fits, "handler called once");
    if (fits) {
        CHECK(mpack_writer_buffer_used(&w) == len && mpack_writer_buffer_left(&w) == size - len, "used and left");
        for (size_t i = 0; i < len; ++i) CHECK((uint8_t)buf[i] == doc[i], "the buffer holds the concatenated encodings");
    }
    CHECK(mpack_writer_destroy(&w) == (fits ? mpack_ok : mpack_error_too_big), "final error");
    for (size_t i = 0; i < len && i < size && fits; ++i) CHECK((uint8_t)buf[i] == doc[i], "unchanged by destruction");
    vf_free(buf);
}
static void run(uint8_t* p, size_t n) {
    uint8_t s = sym_u8(), style = STYLE;
    doc = p; len = n;
    for (unsigned k = 0; k < 3; ++k) {
        if (style != k || k != STYLE) continue;
        for (size_t size = 0; size <= n + 1; ++size) {
            if (s != size) continue;
            at(size, k);
            END(c12);
            STOPV();
        }
        ASSUME(0); STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
