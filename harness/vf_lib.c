/* Shared by the CBMC and the native builds of every harness: the allocator the
 * library is configured with, and (CBMC only) byte-loop memory functions. */
#include "vf.h"
#include "vf_lib.h"
#ifndef VF_CBMC
#include <string.h>
#endif
#include <stdlib.h>

/* 0: allocation never fails; 1: every allocation may fail (symbolic choice) */
int vf_malloc_mode;
/* the allocation calls (counted from 1) that fail; 0: none. Concrete in each
 * case, so that pointers stay concrete */
unsigned vf_fail_at, vf_fail_at2;
unsigned vf_fail_from; /* this and all later calls fail; 0: none */
size_t vf_malloc_cap = VF_MALLOC_CAP; /* larger requests always fail: a stated bound */
long vf_live;               /* blocks allocated and not freed */
unsigned vf_malloc_calls;
unsigned vf_malloc_failures;
size_t vf_malloc_total;     /* sum of requested sizes (successful requests) */
size_t vf_malloc_max;       /* largest request seen, successful or not */

#ifdef VF_SLACK
/* VF_SLACK bytes behind every block, which must stay as they are until it is
 * freed: unlike a plain out-of-bounds write, one that lands there leaves the
 * state concrete */
static unsigned char* vf_block[32];
static size_t vf_block_size[32];
static unsigned vf_blocks;
#endif
void* vf_malloc(size_t size) {
    ++vf_malloc_calls;
    if (size > vf_malloc_max)
        vf_malloc_max = size;
    if (size > vf_malloc_cap || vf_malloc_calls == vf_fail_at || vf_malloc_calls == vf_fail_at2 ||
        (vf_fail_from != 0 && vf_malloc_calls >= vf_fail_from) || (vf_malloc_mode == 1 && sym_bool())) {
        ++vf_malloc_failures;
        return NULL;
    }
#ifdef VF_SLACK
    unsigned char* p = (unsigned char*)malloc(((size + VF_SLACK) ^ 0x5a5au) ^ 0x5a5au);
    ASSUME(p != NULL && vf_blocks < 32);
    for (size_t i = 0; i < VF_SLACK; ++i) p[size + i] = 0x5a;
    vf_block[vf_blocks] = p;
    vf_block_size[vf_blocks++] = size;
#elif defined(VF_CBMC)
    /* the double xor drops the type CBMC attaches to a sizeof expression, so
     * that the block is a plain byte array (arrays of structs holding unions
     * are modelled imprecisely) */
    void* p = malloc((size ^ 0x5a5au) ^ 0x5a5au);
    __CPROVER_assume(p != NULL);
#else
    void* p = malloc(size);
    if (p == NULL) abort();
    memset(p, 0xA5, size);
#endif
    ++vf_live;
    vf_malloc_total += size;
    return p;
}

void vf_free(void* p) {
    if (p == NULL)
        return;
    --vf_live;
#ifdef VF_SLACK
    for (unsigned k = 0; k < vf_blocks; ++k)
        if (vf_block[k] == (unsigned char*)p) {
            vf_block[k] = NULL;
            for (size_t i = 0; i < VF_SLACK; ++i) CHECK(((unsigned char*)p)[vf_block_size[k] + i] == 0x5a, "nothing is written beyond an allocated block");
        }
#endif
    free(p);
}

#ifdef VF_REALLOC
void* vf_realloc(void* p, size_t size) {
    void* q = realloc(p, size);
    return q;
}
#endif

#ifdef VF_DEBUG_HOOKS
/* the library's debug checks (VF_DEBUG_HOOKS goes with MPACK_DEBUG=1) */
unsigned vf_breaks;
void mpack_assert_fail(const char* message) { (void)message; CHECK(0, "internal assertion"); }
void mpack_break_hit(const char* message) { (void)message; ++vf_breaks; }
#endif

#ifdef VF_CBMC
/* The compiler builds use __builtin_unreachable() for failed internal
 * assertions in release mode: reaching one is undefined behaviour. */
void vf_unreachable(void) {
    CHECK(0, "library reached a state it declares unreachable");
    __CPROVER_assume(0);
}

/* Byte loops: CBMC unwinds these exactly for constant sizes, and with
 * unwinding assertions for symbolic ones. */
int vf_memcmp(const void* s1, const void* s2, size_t n) {
    const unsigned char* a = (const unsigned char*)s1;
    const unsigned char* b = (const unsigned char*)s2;
    for (size_t i = 0; i < n; ++i)
        if (a[i] != b[i])
            return a[i] < b[i] ? -1 : 1;
    return 0;
}
void* vf_memcpy(void* d, const void* s, size_t n) {
    char* a = (char*)d;
    const char* b = (const char*)s;
    for (size_t i = 0; i < n; ++i)
        a[i] = b[i];
    return d;
}
void* vf_memmove(void* d, const void* s, size_t n) {
    char* a = (char*)d;
    const char* b = (const char*)s;
    /* the comparison is between pointers into one buffer at every call site */
    if (__CPROVER_POINTER_OBJECT(a) == __CPROVER_POINTER_OBJECT(b) && a > b) {
        for (size_t i = n; i > 0; --i)
            a[i - 1] = b[i - 1];
    } else {
        for (size_t i = 0; i < n; ++i)
            a[i] = b[i];
    }
    return d;
}
void* vf_memset(void* d, int c, size_t n) {
    char* a = (char*)d;
    for (size_t i = 0; i < n; ++i)
        a[i] = (char)c;
    return d;
}
size_t vf_strlen(const char* s) {
    size_t n = 0;
    while (s[n] != '\0')
        ++n;
    return n;
}
#else
int vf_memcmp(const void* s1, const void* s2, size_t n) { return memcmp(s1, s2, n); }
void* vf_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* vf_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* vf_memset(void* d, int c, size_t n) { return memset(d, c, n); }
size_t vf_strlen(const char* s) { return strlen(s); }
#endif
