/* C14: a write too large for the growable buffer is a memory error, for every
 * length, and the writer never asks for less than it needs. */
#include "ref.h"
#include "vf_lib.h"
static char src[64];
static void at(size_t f) {
    char* data = src;
    size_t size = 99, n = sym_u32();
    ASSUME(n >= 100 && n <= 0xffffff00u);
    mpack_writer_t w;
    mpack_writer_init_growable(&w, &data, &size);
    mpack_write_object_bytes(&w, src, f);
    CHECK(mpack_writer_error(&w) == mpack_ok, "room for the first bytes");
    unsigned calls = vf_malloc_calls;
    vf_fail_from = calls + 2; /* the buffer grows once for the bytes it holds; then for the data */
    vf_malloc_max = 0;
    mpack_write_object_bytes(&w, src, n);
    CHECK(mpack_writer_error(&w) == mpack_error_memory, "data that cannot be held is a memory error");
    if (vf_malloc_calls > calls + 1) CHECK(vf_malloc_max >= n && vf_malloc_max >= f && vf_malloc_max - f >= n, "no request smaller than the data");
    /* destruction after a memory error: c14_grow* */
}
int main(void) {
    uint8_t s = sym_u8();
    for (size_t f = 11; f <= 33; f += 11) {
        if (s != f) continue;
        at(f);
        END(c14h);
        STOP();
    }
    ASSUME(0);
    return 0;
}
