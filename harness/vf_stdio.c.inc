/* included by the harness: the file model */
enum { IO_OPEN = 1, IO_READ = 2, IO_WRITE = 4, IO_SEEK = 8, IO_TELL = 16, IO_CLOSE = 32 };
#ifndef F_CAP
#define F_CAP 160
#endif
static FILE vf_file_object;
#define THE_FILE (&vf_file_object)
static uint8_t f_data[F_CAP];
static size_t f_size;
static long f_pos;
static bool f_eof, f_err, f_unseekable, f_exists = true;
static unsigned f_opened, f_closed, f_calls, f_fail_at, f_fail_from, f_failed; /* f_failed: kinds of call that failed */
static unsigned f_reads_after_error;
static size_t f_part;     /* how much a failing read or write still transfers */
static size_t f_chunk;    /* most bytes one read transfers, 0: no limit */
static bool io_fails(unsigned kind) {
    ++f_calls;
    if (f_calls == f_fail_at || (f_fail_from && f_calls >= f_fail_from)) { f_failed |= kind; return true; }
    return false;
}
static void io_open_check(FILE* f) { CHECK(f == THE_FILE && f_closed < f_opened, "only the open file is used"); }
FILE* vf_fopen(const char* path, const char* mode) {
    CHECK(path[0] == 'f' && path[1] == 0, "the file named by the caller is opened");
    if (io_fails(IO_OPEN)) { errno = EACCES; return NULL; }
    if (mode[0] == 'w') f_size = 0;
    CHECK((mode[0] == 'w' || mode[0] == 'r') && mode[1] == 'b', "files are binary");
    if (mode[0] == 'r' && !f_exists) { errno = ENOENT; f_failed |= IO_OPEN; return NULL; }
    f_pos = 0; f_eof = f_err = false;
    ++f_opened;
    return THE_FILE;
}
int vf_fclose(FILE* f) {
    io_open_check(f);
    ++f_closed;
    if (io_fails(IO_CLOSE)) { errno = EIO; return EOF; }
    return 0;
}
size_t vf_fread(void* p, size_t size, size_t n, FILE* f) {
    io_open_check(f);
    CHECK(size == 1, "bytes");
    size_t left = f_pos >= 0 && (size_t)f_pos < f_size ? f_size - (size_t)f_pos : 0, k = n < left ? n : left;
    if (io_fails(IO_READ)) { f_err = true; errno = EIO; if (k > f_part) k = f_part; }
    else if (f_chunk && k > f_chunk) k = f_chunk;
    else if (k < n) f_eof = true;
    for (size_t i = 0; i < k; ++i) ((uint8_t*)p)[i] = f_data[(size_t)f_pos + i];
    f_pos += (long)k;
    return k;
}
int vf_fgetc(FILE* f) { uint8_t c; return vf_fread(&c, 1, 1, f) == 1 ? c : EOF; }
size_t vf_fwrite(const void* p, size_t size, size_t n, FILE* f) {
    io_open_check(f);
    CHECK(size == 1, "bytes");
    size_t k = n;
    if (n == 0) return 0;
    if (io_fails(IO_WRITE)) { f_err = true; errno = ENOSPC; k = f_part < n ? f_part : n - 1; }
    CHECK(k <= F_CAP - f_size, "no more is written than the document");
    for (size_t i = 0; i < k; ++i) f_data[f_size + i] = ((const uint8_t*)p)[i];
    f_size += k;
    return k;
}
int vf_fseek(FILE* f, long off, int whence) {
    io_open_check(f);
    if (f_unseekable || io_fails(IO_SEEK)) { errno = f_unseekable ? ESPIPE : EIO; return -1; }
    long base = whence == SEEK_SET ? 0 : whence == SEEK_END ? (long)f_size : f_pos;
    if (off < 0 ? base + off < 0 : off > (long)(~0ul >> 1) - base) { errno = EINVAL; return -1; }
    f_pos = base + off;
    f_eof = false;
    return 0;
}
long vf_ftell(FILE* f) {
    io_open_check(f);
    if (f_unseekable || io_fails(IO_TELL)) { errno = f_unseekable ? ESPIPE : EIO; return -1; }
    return f_pos;
}
int vf_ferror(FILE* f) { io_open_check(f); return f_err; }
int vf_feof(FILE* f) { io_open_check(f); return f_eof; }
int vf_fflush(FILE* f) { io_open_check(f); if (io_fails(IO_WRITE)) { f_err = true; errno = EIO; return EOF; } return 0; }
void vf_rewind(FILE* f) { vf_fseek(f, 0, SEEK_SET); f_err = false; }
void vf_clearerr(FILE* f) { io_open_check(f); f_err = f_eof = false; }
