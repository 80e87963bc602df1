/* C01: a stream source and a 32-byte buffer, with an arbitrary part of the
 * buffer already consumed; the source returns arbitrary chunk sizes, zero, -1
 * or flags an error. */
#include "rdops.h"
#define B MPACK_READER_MINIMUM_BUFFER_SIZE
#ifndef FILLS
#define FILLS 2
#endif
#ifndef CHUNK
#define CHUNK 4
#endif
static unsigned fills;
static bool failed;

static size_t fill(mpack_reader_t* r, char* p, size_t count) {
    CHECK(mpack_reader_error(r) == mpack_ok, "no fill in an error state");
    CHECK(count > 0, "fill asked for nothing");
    if (fills++ >= FILLS) { failed = true; return 0; }
    uint8_t how = sym_u8();
    if (how == 1) { failed = true; return (size_t)-1; }
    if (how == 2) { failed = true; mpack_reader_flag_error(r, mpack_error_data); return 1; }
    size_t c = sym_range(0, CHUNK);
    ASSUME(c <= count);
    if (c == 0) failed = true;
    /* the buffer and destinations hold arbitrary bytes from the start, so the
     * data delivered is arbitrary; all of the offered room must be writable */
    rd_sink = p[0]; rd_sink = p[count - 1];
    return c;
}
static void skip(mpack_reader_t* r, size_t count) {
    CHECK(mpack_reader_error(r) == mpack_ok, "no skip in an error state");
    CHECK(count > 0, "skip asked for nothing");
    if (sym_bool()) mpack_reader_flag_error(r, mpack_error_io);
}

/* one case per number of unread bytes left in the buffer (and per header byte
 * for tags), so that pointers into the buffer are concrete in each case */
static void run(size_t left0, int type) {
    char buf[B];
    for (unsigned i = 0; i < B; ++i) buf[i] = (char)sym_u8();
    for (unsigned i = 0; i < DST; ++i) rd_dst[i] = (char)sym_u8();
    mpack_reader_t r;
    mpack_reader_init(&r, buf, B, B);
    mpack_reader_set_fill(&r, fill);
    if (sym_bool()) mpack_reader_set_skip(&r, skip);
    mpack_skip_bytes(&r, B - left0);
    if (type >= 0) buf[left0 == 0 ? 0 : B - left0] = (char)type;
    rd_op(&r, sym_u8(), MASK);
    const char* q = NULL;
    size_t left = mpack_reader_remaining(&r, &q);
    CHECK(left <= B, "buffered data within the buffer");
    if (left > 0) CHECK(q >= buf && q + left <= buf + B, "buffered data inside the buffer");
    mpack_error_t e = mpack_reader_destroy(&r);
    CHECK(!failed || e != mpack_ok, "a failing source is an error");
    CHECK(vf_live == 0, "nothing left allocated");
    END(c01_stream);
}

int main(void) {
    static const uint8_t cases[] = { LEFTS };
    size_t left = sym_range(0, B);
#ifdef TYPES
    static const uint8_t types[] = { TYPES };
    uint8_t t = sym_u8();
    for (unsigned i = 0; i < sizeof(cases); ++i)
        for (unsigned j = 0; j < sizeof(types); ++j)
            if (left == cases[i] && t == types[j]) { run(cases[i], types[j]); return 0; }
#else
    for (unsigned i = 0; i < sizeof(cases); ++i)
        if (left == cases[i]) { run(cases[i], -1); return 0; }
#endif
    ASSUME(0);
    return 0;
}
