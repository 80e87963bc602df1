/* C09 for readers. PRE 0: an error is flagged (any error, any amount of data
 * consumed), then one call of every reader and expect function. PRE 1: the
 * first call may fail by itself on arbitrary data, then two more calls. */
#include "ref.h"
#include "vf_lib.h"
#if PRE == 0
#define ROP_A sym_u64()
#define ROP_B sym_u64()
#else
#define ROP_A 2
#define ROP_B 100
#endif
#include "c09_ops.h"
#include "shape.h"
static unsigned calls, feeds;
static mpack_error_t reported;
static mpack_reader_t reader;
static void on_error(mpack_reader_t* r, mpack_error_t e) {
    CHECK(r == &reader && e != mpack_ok && mpack_reader_error(r) == e, "the handler is given the reader and its error");
    ++calls; reported = e;
}
static uint8_t data[64];
static size_t pos, len;
static size_t fill(mpack_reader_t* r, char* b, size_t n) {
    CHECK(mpack_reader_error(r) == mpack_ok, "no fill callback in an error state");
    ++feeds;
    size_t c = len - pos; if (c > n) c = n;
    for (size_t i = 0; i < c; ++i) b[i] = (char)data[pos + i];
    pos += c; return c;
}
static void skip(mpack_reader_t* r, size_t n) {
    CHECK(mpack_reader_error(r) == mpack_ok, "no skip callback in an error state");
    ++feeds;
    if (n > len - pos) mpack_reader_flag_error(r, mpack_error_io); else pos += n;
}
static const mpack_error_t es[] = {mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};
static unsigned flagged;
#ifndef EVERY
#define EVERY 3
#endif
static void state(mpack_error_t first) {
    CHECK(mpack_reader_error(&reader) == first, "the first error is never cleared or replaced");
    CHECK(calls == (first != mpack_ok) && (calls == 0 || reported == first), "the error handler is called exactly once, with the first error");
}
static void one(unsigned op) {
    static char buf[33];
#if STREAM
    mpack_reader_init(&reader, buf, 33, 0);
    mpack_reader_set_fill(&reader, fill);
#if STREAM == 2
    mpack_reader_set_skip(&reader, skip);
#endif
#else
    mpack_reader_init_data(&reader, (const char*)data, len);
#endif
    CHECK(mpack_reader_error(&reader) == mpack_ok, "initialised");
    mpack_reader_set_error_handler(&reader, on_error);
#if PRE == 0
    mpack_error_t e = es[flagged];
    mpack_skip_bytes(&reader, (op + flagged) % 4); /* with tracking, a misuse: raises the first error itself */
    if (mpack_reader_error(&reader) == mpack_ok) mpack_reader_flag_error(&reader, e);
    else e = mpack_reader_error(&reader);
    state(e);
    feeds = 0;
    bool def = rop(op, &reader);
    CHECK(def, "a call in an error state returns its safe default");
    CHECK(feeds == 0, "no data callback in an error state");
    CHECK(op == 104 || op == 114 || mpack_reader_remaining(&reader, NULL) == 0, "nothing is left to read");
#else
    bool def = rop(op, &reader);
    mpack_error_t e = mpack_reader_error(&reader);
    state(e);
    if (e != mpack_ok) {
        CHECK(def, "the failing call returns its safe default");
        feeds = 0;
        CHECK(is_nil_tag(mpack_read_tag(&reader)), "a call in an error state returns its safe default");
        fresh();
        mpack_read_cstr(&reader, o_buf, 4, 1);
        CHECK(o_buf[0] == 0, "a call in an error state returns its safe default");
        mpack_reader_flag_error(&reader, mpack_error_eof);
        mpack_skip_bytes(&reader, 9);
        CHECK(mpack_expect_u8_range(&reader, 3, 9) == 3, "a call in an error state returns its safe default");
        CHECK(feeds == 0, "no data callback in an error state");
    } else { END(c09); return; }
#endif
    state(e);
    CHECK(mpack_reader_destroy(&reader) == e, "destruction reports the first error");
    CHECK(calls == (e != mpack_ok), "destruction does not report again");
    CHECK(vf_live == 0, "nothing is left allocated");
    END(c09);
}
static void run(uint8_t* p, size_t n) {
    for (size_t i = 0; i < n; ++i) data[i] = p[i];
    len = n; pos = 0;
#ifdef FAILS
    vf_fail_from = 1;
#endif
    vf_malloc_cap = 4096;
    unsigned op = sym_u8();
    for (unsigned k = LO; k <= HI; ++k) {
        if (op != k || k == 97) continue;
        if (PRE == 0 && EVERY > 1 && (k + flagged) % EVERY != 0) continue;
        if (VF_TWIN && k != LO) continue;
        one(k);
        STOPV();
    }
    ASSUME(0);
}
#if PRE == 0
int main(void) {
    uint8_t what = sym_u8();
    for (unsigned i = 0; i < 9; ++i) {
        if (what != i) continue;
        flagged = i;
        uint8_t b[9] = {sym_u8(), sym_u8(), sym_u8(), sym_u8(), sym_u8(), sym_u8(), sym_u8(), sym_u8(), sym_u8()};
        run(b, 9);
    }
    return 0;
}
#else
int main(void) {
    uint32_t sel = sym_u32();
#include SHAPES
    ASSUME(0);
    return 0;
}
#endif
