// libc pieces executed symbolically.  Compiled with -fno-builtin and no libc headers.
typedef unsigned long size_t;
#define LONG_MAX 0x7fffffffffffffffL
#define LLONG_MAX 0x7fffffffffffffffLL
#define ULONG_MAX 0xffffffffffffffffUL
#define ULLONG_MAX 0xffffffffffffffffULL
void* malloc(size_t); void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t); int memcmp(const void*, const void*, size_t);
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { if (!nn) return (void*)h; const char* p = (const char*)h; for (size_t i = 0; i + nn <= hn; ++i) if (memcmp(p + i, n, nn) == 0) return (void*)(p + i); return 0; }
char* strstr(const char* h, const char* n) { return (char*)memmem(h, strlen(h), n, strlen(n)); }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); if (p) memcpy(p, s, n); return p; }
void* __memcpy_chk(void* d, const void* s, size_t n, size_t q) { return memcpy(d, s, n); }
void* __memmove_chk(void* d, const void* s, size_t n, size_t q) { return memmove(d, s, n); }
void* __memset_chk(void* d, int c, size_t n, size_t q) { return memset(d, c, n); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static int vs_errno_;
int* __errno_location() { return &vs_errno_; }
static unsigned long long conv(const char* s, char** end, int base, _Bool sgn, unsigned long long pmax, unsigned long long nmax) {
    const char* p = s; while (isspace((unsigned char)*p)) ++p;
    _Bool neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; _Bool any = 0, ov = 0; unsigned long long lim = neg ? nmax : pmax;
    for (;; ++p) { int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = 1; if (!ov) { if (v > (ULLONG_MAX - (unsigned)d) / (unsigned)base) ov = 1; else { v = v * (unsigned)base + (unsigned)d; if (sgn && v > lim) ov = 1; } } }
    if (end) *end = (char*)(any ? p : s);
    if (ov) { vs_errno_ = 34; return sgn ? (neg ? (unsigned long long)-(long long)nmax : pmax) : ULLONG_MAX; }
    return neg ? (unsigned long long)-(long long)v : v;
}
long strtol(const char* s, char** e, int b) { return (long)conv(s, e, b, 1, LONG_MAX, (unsigned long long)LONG_MAX + 1); }
long long strtoll(const char* s, char** e, int b) { return (long long)conv(s, e, b, 1, LLONG_MAX, (unsigned long long)LLONG_MAX + 1); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)conv(s, e, b, 0, ULONG_MAX, ULONG_MAX); }
unsigned long long strtoull(const char* s, char** e, int b) { return conv(s, e, b, 0, ULLONG_MAX, ULLONG_MAX); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
// guards for function-local statics (single threaded)
int __cxa_guard_acquire(unsigned long* g) { return *(unsigned char*)g == 0; }
void __cxa_guard_release(unsigned long* g) { *(unsigned char*)g = 1; }
void __cxa_guard_abort(unsigned long* g) { (void)g; }

// formatted output, the subset used by error messages and counters
int vsnprintf(char* out, size_t n, const char* f, __builtin_va_list ap) {
    size_t k = 0;
#define PUT(ch) do { if (k + 1 < n) out[k] = (ch); k++; } while (0)
    for (; *f; ++f) {
        if (*f != '%') { PUT(*f); continue; }
        ++f; int zero = 0, width = 0, lng = 0, prec = -1;
        while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = 1; ++f; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = __builtin_va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 1; ++f; }
        while (*f == 'h') ++f;
        if (*f == '%') { PUT('%'); continue; }
        if (*f == 'c') { PUT((char)__builtin_va_arg(ap, int)); continue; }
        if (*f == 's') { const char* s = __builtin_va_arg(ap, const char*); for (int i = 0; (prec < 0 || i < prec) && s[i]; ++i) PUT(s[i]); continue; }
        unsigned long long v; int neg = 0, base = 10; char up = 'a';
        if (*f == 'd' || *f == 'i') { long long x = lng ? __builtin_va_arg(ap, long long) : (long long)__builtin_va_arg(ap, int); neg = x < 0; v = neg ? 0ull - (unsigned long long)x : (unsigned long long)x; }
        else { v = lng || *f == 'p' ? __builtin_va_arg(ap, unsigned long long) : (unsigned long long)__builtin_va_arg(ap, unsigned); if (*f == 'x' || *f == 'p') base = 16; else if (*f == 'X') { base = 16; up = 'A'; } else if (*f == 'o') base = 8; }
        char t[32]; int m = 0; do { int d = (int)(v % (unsigned)base); t[m++] = (char)(d < 10 ? '0' + d : up + d - 10); v /= (unsigned)base; } while (v);
        if (neg) t[m++] = '-';
        while (m < width && m < 31) t[m++] = zero ? '0' : ' ';
        while (m) { --m; PUT(t[m]); }
    }
    if (n) out[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char* o, size_t n, const char* f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(o, n, f, ap); __builtin_va_end(ap); return r; }
int sprintf(char* o, const char* f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int r = vsnprintf(o, 1ul << 30, f, ap); __builtin_va_end(ap); return r; }
