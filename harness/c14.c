/* C14: a growable writer hands over exactly the document or nothing. */
#include "wdoc.h"
#include "shape.h"

static unsigned handler;
static mpack_error_t reported;
static void on_error(mpack_writer_t* w, mpack_error_t e) { (void)w; ++handler; reported = e; }
static uint8_t fill[64];

static void at(const uint8_t* doc, size_t len, size_t f) {
    char* data = (char*)fill;
    size_t size = 99;
    mpack_writer_t w;
    vf_fail_at = FAIL;
    mpack_writer_init_growable(&w, &data, &size);
    mpack_error_t start = mpack_writer_error(&w);
    CHECK(start == (vf_malloc_failures ? mpack_error_memory : mpack_ok), "initial allocation failure is a memory error");
    mpack_writer_set_error_handler(&w, on_error);
    if (f > 0) { for (size_t i = 0; i < f; ++i) fill[i] = sym_u8(); mpack_write_object_bytes(&w, (const char*)fill, f); }
    if (MESSAGE && f % 2) { mpack_writer_flush_message(&w); CHECK(mpack_writer_error(&w) == (vf_malloc_failures ? mpack_error_memory : mpack_ok), "a message flush keeps the data"); }
    emit(&w, doc, len, STYLE, BUILDS);
    bool flagged = false;
    if (FLAG) { mpack_writer_flag_error(&w, mpack_error_data); flagged = vf_malloc_failures == 0; }
    mpack_error_t e = mpack_writer_destroy(&w);
    if (vf_malloc_failures == 0 && !flagged) {
        CHECK(e == mpack_ok && handler == 0, "no error");
        CHECK(data != NULL && size == f + len, "the buffer is handed over with its size");
        for (size_t i = 0; i < f; ++i) CHECK((uint8_t)data[i] == fill[i], "the buffer holds the concatenated encodings");
        for (size_t i = 0; i < len; ++i) CHECK((uint8_t)data[f + i] == doc[i], "the buffer holds the concatenated encodings");
#ifndef VF_REALLOC
        CHECK(vf_live == 1, "nothing but the buffer is left allocated");
#endif
        vf_free(data);
    } else {
        CHECK(e == (flagged ? mpack_error_data : mpack_error_memory), "an allocation failure is a memory error");
        CHECK(start != mpack_ok || (handler == 1 && reported == e), "handler called once");
        CHECK(data == NULL && size == 0, "no buffer is handed over");
    }
    CHECK(vf_live == 0, "nothing is leaked");
}
static void run(uint8_t* p, size_t n) {
    uint8_t s = sym_u8();
    for (size_t f = FLO; f <= FHI; f += FSTEP) {
        if (s != f) continue;
        at(p, n, f);
        END(c14);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
