/* C15: documents with automatically counted containers, written to a large
 * buffer, through a flush callback, or with failing allocations. */
#include "wdoc.h"
#include "shape.h"

#define CAP 400
static uint8_t got[CAP];
static size_t got_n;
static bool sink_failed;
static unsigned handler;
static mpack_error_t reported;
static unsigned io_at, flushes;
static void on_error(mpack_writer_t* w, mpack_error_t e) { (void)w; ++handler; reported = e; }
static void flush(mpack_writer_t* w, const char* p, size_t count) {
    ++flushes;
    CHECK(!sink_failed, "no call after a failure");
    if (flushes == io_at) { sink_failed = true; mpack_writer_flag_error(w, mpack_error_io); return; }
    CHECK(count <= CAP - got_n, "no more bytes delivered than written");
    for (size_t i = 0; i < count; ++i) got[got_n + i] = (uint8_t)p[i];
    got_n += count;
}
static uint8_t all[CAP];

/* f bytes of filler as the first element of a two-element built array, then
 * the document as a nested value; a build elsewhere per mask */
static void at(const uint8_t* doc, size_t len, size_t f) {
    char* buf = (char*)vf_malloc(SIZE);
    size_t n = 0;
    mpack_writer_t w;
    mpack_writer_init(&w, buf, SIZE);
    mpack_writer_set_error_handler(&w, on_error);
#if SINK
    mpack_writer_set_flush(&w, flush);
#endif
    vf_fail_at = FAIL ? FAIL + 1 : 0;
    io_at = IOFAIL;
    /* outer: [ filler..., doc elements ] */
    ref_tag_t t;
    size_t elems = 1, pos = 0, pend = 0;
    for (pos = 0; pos < len; ) { /* top-level objects of the document */
        t = ref_decode(doc + pos, len - pos);
        pos += t.size;
        if (t.type == REF_STR || t.type == REF_BIN || t.type == REF_EXT) pos += t.len;
        if (pend) --pend; else ++elems;
        if (t.type == REF_ARRAY) pend += t.len; else if (t.type == REF_MAP) pend += 2 * (size_t)t.len;
    }
    ASSUME(elems <= 15);
    if (OUTER) { mpack_build_array(&w); all[n++] = (uint8_t)(0x90 + elems); }
    /* an element of f + 1 bytes (str8 for longer ones) */
    static uint8_t fill[260];
    size_t h = f < 32 ? 1 : 2;
    if (f < 32) fill[0] = (uint8_t)(0xa0 + f); else { fill[0] = 0xd9; fill[1] = (uint8_t)f; }
    for (size_t i = 0; i < f; ++i) fill[h + i] = i < 3 ? sym_u8() : (uint8_t)i;
    mpack_write_object_bytes(&w, (const char*)fill, h + f);
    for (size_t i = 0; i < h + f; ++i) all[n++] = fill[i];
    emit(&w, doc, len, STYLE, BUILDS);
    for (size_t i = 0; i < len; ++i) all[n++] = doc[i];
    if (OUTER) mpack_complete_array(&w);
    bool nomem = vf_malloc_failures != 0;
    if (!nomem) {
        mpack_error_t e = SINK ? mpack_ok : n <= SIZE ? mpack_ok : mpack_error_too_big;
        if (IOFAIL && flushes >= IOFAIL) e = mpack_error_io;
        CHECK(mpack_writer_error(&w) == e && handler == (e != mpack_ok), "error only when it does not fit or the callback fails");
        size_t used = mpack_writer_buffer_used(&w);
        if (e == mpack_ok && !SINK) {
            CHECK(used == n, "size as with declared counts");
            for (size_t i = 0; i < n; ++i) CHECK((uint8_t)buf[i] == all[i], "bytes as with declared counts");
        }
        /* destruction delivers the rest */
        mpack_error_t d = mpack_writer_destroy(&w);
        if (IOFAIL && flushes >= IOFAIL) e = mpack_error_io;
        CHECK(d == e, "final error");
        if (SINK && e == mpack_ok) CHECK(got_n == n, "everything is delivered");
    } else {
        CHECK(mpack_writer_error(&w) == mpack_error_memory && handler == 1 && reported == mpack_error_memory, "a failed page allocation is a memory error");
        CHECK(mpack_writer_destroy(&w) == mpack_error_memory, "final error");
    }
    for (size_t i = 0; i < got_n; ++i) CHECK(got[i] == all[i], "delivered bytes are the bytes of the document, in order");
    vf_free(buf);
    CHECK(vf_live == 0, "pages are released");
}
static void run(uint8_t* p, size_t n) {
    uint8_t s = sym_u8();
    for (size_t f = FLO; f <= FHI; f += FSTEP) {
        if (s != f) continue;
        at(p, n, f);
        END(c15);
        STOPV();
    }
    ASSUME(0);
}
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
