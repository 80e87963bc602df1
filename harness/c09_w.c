/* C09 for writers. SINK 0: fixed buffer, 1: flush function, 2: growable.
 * PRE 0: an error is flagged, then every write function, then destruction.
 * PRE 1: a write function fails by itself (no room, a failing flush, failing
 * allocations, bad arguments), then more calls. */
#include "wdoc.h"
static unsigned calls, flushes;
static mpack_error_t reported;
static mpack_writer_t w;
static char* data; static size_t size;
static void on_error(mpack_writer_t* x, mpack_error_t e) {
    CHECK(x == &w && e != mpack_ok && mpack_writer_error(x) == e, "the handler is given the writer and its error");
    ++calls; reported = e;
}
static unsigned io_at;
static void flush(mpack_writer_t* x, const char* p, size_t n) {
    (void)p; (void)n;
    CHECK(mpack_writer_error(x) == mpack_ok, "nothing is flushed in an error state");
    if (++flushes >= io_at) mpack_writer_flag_error(x, mpack_error_io);
}
static const mpack_error_t es[] = {mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};
static void state(mpack_error_t first) {
    CHECK(mpack_writer_error(&w) == first, "the first error is never cleared or replaced");
    CHECK(calls == (first != mpack_ok) && (calls == 0 || reported == first), "the error handler is called exactly once, with the first error");
}
static const char text[] = {'a', (char)0xc3, (char)0xa9, 'b', 0};
static const char bad[] = {'a', (char)0xc3, 'b', 0};
static char blob[48];
#define WOPS 57
static uint64_t A;
static void wop(unsigned op) {
    uint64_t a = A; /* concrete, so that positions in the buffer stay concrete */
    switch (op) {
        case 0: mpack_write_u8(&w, (uint8_t)a); break;
        case 1: mpack_write_u16(&w, (uint16_t)a); break;
        case 2: mpack_write_u32(&w, (uint32_t)a); break;
        case 3: mpack_write_u64(&w, a); break;
        case 4: mpack_write_uint(&w, a); break;
        case 5: mpack_write_i8(&w, (int8_t)a); break;
        case 6: mpack_write_i16(&w, (int16_t)a); break;
        case 7: mpack_write_i32(&w, (int32_t)a); break;
        case 8: mpack_write_i64(&w, (int64_t)a); break;
        case 9: mpack_write_int(&w, (int64_t)a); break;
        case 10: mpack_write_float(&w, 1.5f); break;
        case 11: mpack_write_double(&w, 1.5); break;
        case 12: mpack_write_bool(&w, a & 1); break;
        case 13: mpack_write_true(&w); break;
        case 14: mpack_write_false(&w); break;
        case 15: mpack_write_nil(&w); break;
        case 16: mpack_write_object_bytes(&w, text, 1); break;
        case 17: mpack_write_timestamp(&w, (int64_t)a, 999999999); break;
        case 18: mpack_write_timestamp(&w, 1, 1000000000); break;
        case 19: mpack_write_timestamp_seconds(&w, (int64_t)a); break;
        case 20: mpack_start_array(&w, (uint32_t)a); break;
        case 21: mpack_start_map(&w, (uint32_t)a); break;
        case 22: mpack_start_str(&w, (uint32_t)a); break;
        case 23: mpack_start_bin(&w, (uint32_t)a); break;
        case 24: mpack_start_ext(&w, (int8_t)a, (uint32_t)(a >> 8)); break;
        case 25: mpack_write_str(&w, blob, 40); break;
        case 26: mpack_write_bin(&w, blob, 40); break;
        case 27: mpack_write_ext(&w, 5, blob, 40); break;
        case 28: mpack_write_utf8(&w, text, 4); break;
        case 29: mpack_write_utf8(&w, bad, 3); break;
        case 30: mpack_write_cstr(&w, text); break;
        case 31: mpack_write_cstr_or_nil(&w, a & 1 ? text : NULL); break;
        case 32: mpack_write_utf8_cstr(&w, text); break;
        case 33: mpack_write_utf8_cstr(&w, bad); break;
        case 34: mpack_write_utf8_cstr_or_nil(&w, bad); break;
        case 35: mpack_write_bytes(&w, blob, 40); break;
        case 36: mpack_write_tag(&w, mpack_tag_make_uint(a)); break;
        case 37: mpack_write_tag(&w, mpack_tag_make_double(2.5)); break;
        case 38: mpack_finish_array(&w); break;
        case 39: mpack_finish_map(&w); break;
        case 40: mpack_finish_str(&w); break;
        case 41: mpack_finish_bin(&w); break;
        case 42: mpack_finish_ext(&w); break;
        case 43: mpack_finish_type(&w, mpack_type_map); break;
        case 44: mpack_build_array(&w); break;
        case 45: mpack_build_map(&w); break;
        case 46: mpack_complete_array(&w); break;
        case 47: mpack_complete_map(&w); break;
        case 48: mpack_writer_flush_message(&w); break;
        case 49: mpack_writer_flag_error(&w, mpack_error_eof); break;
        case 50: mpack_write_tag(&w, mpack_tag_make_map((uint32_t)a)); break;
        case 51: mpack_write_tag(&w, mpack_tag_make_str((uint32_t)a)); break;
        case 52: mpack_build_map(&w); mpack_write_nil(&w); mpack_complete_map(&w); break; /* a key without a value */
        case 53: mpack_build_array(&w); mpack_build_array(&w); mpack_write_nil(&w); mpack_complete_array(&w); mpack_complete_array(&w); break;
        case 54: mpack_build_array(&w); if (MPACK_WRITE_TRACKING) mpack_complete_map(&w); else mpack_complete_array(&w); break; /* closing the wrong type is only caught by tracking */
        case 55: mpack_build_array(&w); for (int i = 0; i < 4; ++i) mpack_write_str(&w, blob, 30); mpack_complete_array(&w); break;
        default: mpack_write_str(&w, NULL, 0); break;
    }
}
static char* buf;
static void one(unsigned op, unsigned how) {
    for (unsigned i = 0; i < sizeof(blob); ++i) blob[i] = (char)sym_u8();
    static const uint64_t as[] = {7, 0x81, 0xfffe, 0x80000001u, 0xfedcba9876543210ull};
    A = as[(op + how) % 5];
#if SINK == 2
    mpack_writer_init_growable(&w, &data, &size);
#else
    /* PRE 1 on a fixed buffer: little room; with a flush, the failing call varies */
    size_t room = SINK == 1 ? 32 : PRE ? how : 40;
    buf = (char*)vf_malloc(room);
    mpack_writer_init(&w, buf, room);
#if SINK == 1
    io_at = PRE ? how : 99;
    mpack_writer_set_flush(&w, flush);
#endif
#endif
    mpack_writer_set_error_handler(&w, on_error);
#if PRE == 0
    mpack_error_t e = es[how];
    switch ((op + how) % 3) {
        case 1: mpack_write_str(&w, blob, 7); break;
        case 2: mpack_build_array(&w); mpack_write_str(&w, blob, 3); break;
        default: break;
    }
    CHECK(mpack_writer_error(&w) == mpack_ok, "no error yet");
    mpack_writer_flag_error(&w, e);
#else
    if (SINK == 2) vf_fail_from = vf_malloc_calls + how; /* the how-th allocation from here fails */
    wop(op);
    if (SINK != 0 && mpack_writer_error(&w) == mpack_ok && op != 44 && op != 45) { wop(25); wop(26); mpack_writer_flush_message(&w); }
    mpack_error_t e = mpack_writer_error(&w);
#endif
    state(e);
    if (e != mpack_ok) {
        unsigned f = flushes;
        for (unsigned k = 0; k < WOPS; ++k) {
            if (PRE == 0 ? k != op : k % 7 != op % 7) continue;
            wop(k);
            state(e);
        }
        CHECK(flushes == f, "nothing is flushed in an error state");
    }
#if PRE == 1
    else if (op == 44 || op == 45) mpack_writer_flag_error(&w, e = mpack_error_data);
#endif
    vf_fail_from = 0;
    unsigned f = flushes;
    mpack_error_t d = mpack_writer_destroy(&w);
    if (e != mpack_ok) {
        CHECK(d == e, "destruction reports the first error");
        CHECK(flushes == f, "nothing is flushed by destroying a failed writer");
        CHECK(calls == 1, "destruction does not report again");
    } else CHECK(calls == (d != mpack_ok) && (calls == 0 || reported == d), "an error at destruction is reported once");
#if SINK == 2
    CHECK((data != NULL) == (d == mpack_ok), "a buffer is handed over exactly when there is no error");
    vf_free(data);
#endif
    vf_free(buf);
    CHECK(vf_live == 0, "nothing is left allocated");
    END(c09);
}
int main(void) {
    static const uint8_t hows[] = {HOWS};
    unsigned s = sym_u32();
    for (unsigned k = 0; k < WOPS; ++k)
        for (unsigned h = 0; h < sizeof(hows); ++h) {
            if (s != k * 16 + h) continue;
            if (PRE == 0 && h % EVERY != k % EVERY) continue;
            if (PRE == 1 && !MPACK_WRITE_TRACKING && (k == 46 || k == 47)) continue; /* completing what was never built: only tracking reports it */
            if (VF_TWIN && k != 25) continue;
            one(k, hows[h]);
            STOPV();
        }
    return 0;
}
