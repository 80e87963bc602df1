/* One arbitrary reader call with arbitrary arguments into a right-sized,
 * end-aligned destination. Used by the safety and error harnesses. */
#ifndef RDOPS_H
#define RDOPS_H 1
#include "ref.h"
#include "vf_lib.h"
#ifndef DST
#define DST 12
#endif
static char rd_dst[DST];
static volatile char rd_sink;

static void rd_touch(const char* p, size_t c) {
    if (p != NULL && c > 0) { rd_sink = p[0]; rd_sink = p[c - 1]; }
}

/* op 0..12, restricted at compile time to the set in mask so that a harness
 * only encodes the calls it is about */
#define RD_IN(i) if (!((mask >> (i)) & 1)) { ASSUME(0); break; }
static inline unsigned rd_op(mpack_reader_t* r, unsigned op, unsigned mask) {
    uint32_t c = sym_u32();
    switch (op) {
        case 0: RD_IN(0) mpack_read_tag(r); break;
        case 1: RD_IN(1) mpack_peek_tag(r); break;
        case 2: RD_IN(2) ASSUME(c <= DST); mpack_read_bytes(r, rd_dst + (DST - c), c); break;
        case 3: RD_IN(3) mpack_skip_bytes(r, c); break;
        case 4: RD_IN(4) rd_touch(mpack_read_bytes_inplace(r, c), c); break;
        case 5: RD_IN(5) ASSUME(c <= DST); mpack_read_utf8(r, rd_dst + (DST - c), c); break;
        case 6: RD_IN(6) { size_t sz = sym_range(1, DST); mpack_read_cstr(r, rd_dst + (DST - sz), sz, c); break; }
        case 7: RD_IN(7) { size_t sz = sym_range(1, DST); mpack_read_utf8_cstr(r, rd_dst + (DST - sz), sz, c); break; }
        case 8: RD_IN(8) ASSUME(c <= DST || c > MPACK_READER_MINIMUM_BUFFER_SIZE); rd_touch(mpack_read_utf8_inplace(r, c), c); break;
        case 9: RD_IN(9) { ASSUME(c <= DST || c > vf_malloc_cap); char* p = mpack_read_bytes_alloc(r, c); rd_touch(p, c); vf_free(p); break; }
        case 10: RD_IN(10) mpack_read_timestamp(r, c); break;
        case 11: RD_IN(11) {
            const char* p = NULL; size_t n = mpack_reader_remaining(r, &p);
            if (mpack_reader_error(r) == mpack_ok) rd_touch(p, n);
            break;
        }
        case 12: RD_IN(12) if (mpack_should_read_bytes_inplace(r, c)) rd_touch(mpack_read_bytes_inplace(r, c), c); break;
        default: ASSUME(0);
    }
    return op;
}
#endif
