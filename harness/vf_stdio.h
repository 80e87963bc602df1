/* Model of the C file functions the library uses (harness/c29.c). One file in
 * memory; every call is counted and one (or every one from some point) fails. */
#ifndef VF_STDIO_H
#define VF_STDIO_H 1
#include <stdio.h>
#include <errno.h>
FILE* vf_fopen(const char* path, const char* mode);
int vf_fclose(FILE* f);
size_t vf_fread(void* p, size_t size, size_t n, FILE* f);
size_t vf_fwrite(const void* p, size_t size, size_t n, FILE* f);
int vf_fseek(FILE* f, long off, int whence);
long vf_ftell(FILE* f);
int vf_ferror(FILE* f);
int vf_feof(FILE* f);
int vf_fgetc(FILE* f);
int vf_fflush(FILE* f);
void vf_rewind(FILE* f);
void vf_clearerr(FILE* f);
#undef fopen
#undef fclose
#undef fread
#undef fwrite
#undef fseek
#undef ftell
#undef fseeko
#undef ftello
#undef ferror
#undef feof
#undef fgetc
#undef getc
#undef fflush
#undef rewind
#undef clearerr
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define fwrite vf_fwrite
#define fseek vf_fseek
#define ftell vf_ftell
#define fseeko vf_fseek
#define ftello vf_ftell
#define ferror vf_ferror
#define feof vf_feof
#define fgetc vf_fgetc
#define getc vf_fgetc
#define fflush vf_fflush
#define rewind vf_rewind
#define clearerr vf_clearerr
#endif
