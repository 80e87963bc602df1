/* C01: any bytes, any sequence of reader calls: no invalid access, and the
 * read position never leaves the data. */
#include "rdops.h"
#ifndef N
#define N 10
#endif
#ifndef K
#define K 3
#endif

int main(void) {
    char buf[N];
    for (int i = 0; i < N; ++i) buf[i] = (char)sym_u8();
    size_t n = sym_range(0, N);
    const char* p = buf + (N - n);
    mpack_reader_t r;
    mpack_reader_init_data(&r, p, n);
    size_t last = n;
    for (int k = 0; k < K; ++k) {
        unsigned op = sym_u8();
        if (k == 0) rd_op(&r, op, MASK);
        else rd_op(&r, op, 0x1fff);
        size_t left = mpack_reader_remaining(&r, NULL);
        CHECK(left <= last, "the amount of unread data never grows");
        last = left;
    }
    mpack_reader_destroy(&r);
    CHECK(vf_live == 0, "nothing left allocated");
    END(c01);
    return 0;
}
