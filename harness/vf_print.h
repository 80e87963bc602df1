/* Model of the C text functions the library's debug printing uses (harness/c25.c):
 * what is written and returned follows the C standard exactly, except for which
 * digits a number prints as: their count is exact (%f: any text of vf_flen
 * characters), the digits are a function of the value. */
#ifndef VF_PRINT_H
#define VF_PRINT_H 1
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <inttypes.h>
int vf_snprintf(char* s, size_t n, const char* format, ...);
int vf_vsnprintf(char* s, size_t n, const char* format, va_list args);
char* vf_strncpy(char* d, const char* s, size_t n);
#undef snprintf
#undef vsnprintf
#undef strncpy
/* CBMC does not promote arguments passed through "..."; "+ 0" does */
#define VF_SP_N(s, n, f, a, b, c, d, count, ...) VF_SP##count
#define VF_SP0(s, n, f) vf_snprintf(s, n, f)
#define VF_SP1(s, n, f, a) vf_snprintf(s, n, f, (a) + 0)
#define VF_SP2(s, n, f, a, b) vf_snprintf(s, n, f, (a) + 0, (b) + 0)
#define VF_SP3(s, n, f, a, b, c) vf_snprintf(s, n, f, (a) + 0, (b) + 0, (c) + 0)
#define VF_SP4(s, n, f, a, b, c, d) vf_snprintf(s, n, f, (a) + 0, (b) + 0, (c) + 0, (d) + 0)
#define VF_SP5 vf_snprintf
#define snprintf(...) VF_SP_N(__VA_ARGS__, 4, 3, 2, 1, 0, x)(__VA_ARGS__)
#define vsnprintf vf_vsnprintf
#define strncpy vf_strncpy
#endif
