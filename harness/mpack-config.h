/* mpack-config.h used by all harnesses (via MPACK_HAS_CONFIG). Harnesses choose
 * variations with -D; everything here is an option documented by MPack. */
#ifndef MPACK_CONFIG_H
#define MPACK_CONFIG_H 1

#include <stddef.h>
#include <stdint.h>

#ifndef MPACK_STDLIB
#define MPACK_STDLIB 0
#endif
#ifndef MPACK_STDIO
#define MPACK_STDIO 0
#endif
#ifndef MPACK_EXTENSIONS
#define MPACK_EXTENSIONS 1
#endif
#ifndef MPACK_COMPATIBILITY
#define MPACK_COMPATIBILITY 1
#endif
#ifndef MPACK_DEBUG
#define MPACK_DEBUG 0
#endif
#if MPACK_DEBUG
#define MPACK_CUSTOM_ASSERT 1
#ifndef VF_REAL_BREAK
#define MPACK_CUSTOM_BREAK 1
#endif
#endif

#ifndef VF_NO_MALLOC
void* vf_malloc(size_t size);
void vf_free(void* p);
#define MPACK_MALLOC vf_malloc
#define MPACK_FREE vf_free
#ifdef VF_REALLOC
void* vf_realloc(void* p, size_t size);
#define MPACK_REALLOC vf_realloc
#endif
#endif

#ifndef VF_OWN_MEM /* VF_OWN_MEM: use the library's own memory functions */
int vf_memcmp(const void* s1, const void* s2, size_t n);
void* vf_memcpy(void* d, const void* s, size_t n);
void* vf_memmove(void* d, const void* s, size_t n);
void* vf_memset(void* d, int c, size_t n);
size_t vf_strlen(const char* s);
/* constant sizes (sizeof of some object) use CBMC's own model, which handles
 * them in one step; symbolic sizes use byte loops under the unwinding bound */
void* memcpy(void* d, const void* s, size_t n);
void* memset(void* d, int c, size_t n);
#define MPACK_MEMCMP vf_memcmp
#define MPACK_MEMCPY(d, s, n) (__builtin_constant_p(n) ? memcpy((d), (s), (n)) : vf_memcpy((d), (s), (n)))
#define MPACK_MEMMOVE vf_memmove
#define MPACK_MEMSET(d, c, n) (__builtin_constant_p(n) ? memset((d), (c), (n)) : vf_memset((d), (c), (n)))
#define MPACK_STRLEN vf_strlen
#endif

#if MPACK_STDIO && defined(VF_FILES)
#include "vf_stdio.h"
#endif

#if MPACK_STDIO && defined(VF_PRINT)
#include "vf_print.h"
#endif

#ifdef VF_CONFIG_EXTRA
#include VF_CONFIG_EXTRA
#endif

#endif
