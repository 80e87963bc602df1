#ifndef VF_LIB_H
#define VF_LIB_H 1
#include <stddef.h>
#ifndef VF_MALLOC_CAP
#define VF_MALLOC_CAP 4096
#endif
extern int vf_malloc_mode;
extern unsigned vf_fail_at, vf_fail_at2, vf_fail_from;
extern size_t vf_malloc_cap;
extern long vf_live;
extern unsigned vf_malloc_calls, vf_malloc_failures;
extern unsigned vf_breaks;
extern size_t vf_malloc_total, vf_malloc_max;
void* vf_malloc(size_t size);
void vf_free(void* p);
#endif
