/* included by the harness: see vf_print.h */
static unsigned vf_flen = 8; /* characters a floating point number prints as */
#ifdef VF_DIGITS
static unsigned vf_digits[2], vf_nums;
static bool vf_neg[2];
#endif
typedef struct { char* s; size_t n, at; } out_t;
static void out_c(out_t* o, char c) {
    if (o->at + 1 < o->n) o->s[o->at] = c;
    ++o->at;
}
static void out_u(out_t* o, uint64_t v, bool neg, unsigned base, unsigned width, bool zero) {
    unsigned digits = 1;
    uint64_t q = base;
#ifdef VF_DIGITS
    /* the case at hand: the sign and number of digits of each number printed */
    unsigned want = vf_digits[vf_nums & 1];
    ASSUME(neg == vf_neg[vf_nums & 1]);
    neg = vf_neg[vf_nums & 1];
    ++vf_nums;
    uint64_t low = 1;
    for (unsigned i = 1; i < want; ++i) low *= base;
    ASSUME(v >= low || want == 1);
    ASSUME(low > UINT64_MAX / base || v < low * base);
    digits = want;
    (void)q;
#else
    for (unsigned i = 0; i < 20; ++i) {
        if (v >= q) ++digits;
        if (q > UINT64_MAX / base) break;
        q *= base;
    }
#endif
    if (width) for (unsigned i = digits + neg; i < width; ++i) out_c(o, zero ? '0' : ' ');
    if (neg) out_c(o, '-');
    for (unsigned i = 0; i < digits; ++i) out_c(o, (char)('0' + ((v >> (2 * i)) & 7)));
}
int vf_vsnprintf(char* s, size_t n, const char* format, va_list args) {
    out_t o = { s, n, 0 };
    for (const char* f = format; *f; ++f) {
        if (*f != '%') { out_c(&o, *f); continue; }
        ++f;
        bool zero = false;
        unsigned width = 0, longs = 0;
        bool z = false;
        int prec = -1;
        if (*f == '0') { zero = true; ++f; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (unsigned)(*f++ - '0');
        if (*f == '.') {
            ++f;
            if (*f == '*') { prec = va_arg(args, int); ++f; }
            else for (prec = 0; *f >= '0' && *f <= '9'; ++f) prec = prec * 10 + (*f - '0');
        }
        while (*f == 'l' || *f == 'h') { if (*f == 'l') ++longs; ++f; }
        if (*f == 'z' || *f == 'j' || *f == 't') { z = true; if (*f == 'j') longs = 2; ++f; }
        bool wide = longs > 1 || ((longs || z) && sizeof(long) == 8);
        switch (*f) {
            case '%': out_c(&o, '%'); break;
            case 'c': out_c(&o, (char)va_arg(args, int)); break;
            case 's': { const char* t = va_arg(args, const char*); for (int i = 0; (prec < 0 || i < prec) && t[i]; ++i) out_c(&o, t[i]); break; }
            case 'd': case 'i': {
                int64_t v = wide ? va_arg(args, long long) : va_arg(args, int);
                out_u(&o, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0, 10, width, zero);
                break;
            }
            case 'u': case 'x': case 'X': {
                uint64_t v = wide ? va_arg(args, unsigned long long) : va_arg(args, unsigned);
                out_u(&o, v, false, *f == 'u' ? 10 : 16, width, zero);
                break;
            }
            case 'f': case 'g': case 'e': (void)va_arg(args, double); for (unsigned i = 0; i < vf_flen; ++i) out_c(&o, 'F'); break;
            case 'p': (void)va_arg(args, void*); for (unsigned i = 0; i < 14; ++i) out_c(&o, 'p'); break;
            default: ASSUME(0); /* not modelled */
        }
    }
    if (n) s[o.at < n ? o.at : n - 1] = 0;
    return (int)o.at;
}
int vf_snprintf(char* s, size_t n, const char* format, ...) {
    va_list args;
    va_start(args, format);
    int r = vf_vsnprintf(s, n, format, args);
    va_end(args);
    return r;
}
char* vf_strncpy(char* d, const char* s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
