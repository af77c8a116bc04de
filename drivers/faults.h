/* injection of operating system failures through the linker's --wrap */
#include <stdarg.h>
#define REAL(r, n, ...) r __real_##n(__VA_ARGS__)
REAL(FILE *, fopen, const char *, const char *); REAL(FILE *, fopen64, const char *, const char *);
REAL(int, fclose, FILE *); REAL(int, fseek, FILE *, long, int); REAL(long, ftell, FILE *);
REAL(size_t, fread, void *, size_t, size_t, FILE *); REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
REAL(void *, malloc, size_t); REAL(void *, calloc, size_t, size_t); REAL(void *, realloc, void *, size_t); REAL(void, free, void *);
REAL(int, mkdir, const char *, mode_t);
static int on, count, target; static long live, handles; static char hit[200]; static int shortly;
static FILE * wfile;                        /* handles opened for writing */
static struct { FILE * f; int w; } H[64];
static int strike(const char * what, const char * arg)
{
    if(!on) return 0;
    count ++;
    if(count != target) return 0;
    snprintf(hit, sizeof hit, "%s %.150s", what, arg ? arg : "");
    return 1;
}
static void hopen(FILE * f, const char * m) { if(!f) return; handles ++; for(int i = 0; i < 64; i ++) if(!H[i].f) { H[i].f = f; H[i].w = m[0] != 'r' || m[1] == '+'; return; } }
static int hw(FILE * f) { for(int i = 0; i < 64; i ++) if(H[i].f == f) return H[i].w; return -1; }
static FILE * wopen(const char * p, const char * m, FILE * (*g)(const char *, const char *))
{
    if(!on) return g(p, m);
    if(strike("opening", p)) { static int e[] = {EACCES, EMFILE, ENFILE, EIO}; errno = PICK(e); return NULL; }
    FILE * f = g(p, m); hopen(f, m); return f;
}
FILE * __wrap_fopen(const char * p, const char * m) { return wopen(p, m, __real_fopen); }
FILE * __wrap_fopen64(const char * p, const char * m) { return wopen(p, m, __real_fopen64); }
int __wrap_fclose(FILE * f)
{
    int w = hw(f), known_ = 0;
    for(int i = 0; i < 64; i ++) if(H[i].f == f) { H[i].f = NULL; handles --; known_ = 1; }
    if(on && !known_) fail("a file is closed that was not opened, or closed twice");
    int k = w == 1 && strike("closing a written file", NULL);
    int r = __real_fclose(f);
    if(k) { errno = ENOSPC; return EOF; }
    return r;
}
int __wrap_fseek(FILE * f, long o, int w) { if(strike("seeking", NULL)) { errno = EIO; return -1; } return __real_fseek(f, o, w); }
long __wrap_ftell(FILE * f) { if(strike("asking for the position", NULL)) { errno = EIO; return -1; } return __real_ftell(f); }
static FILE * errf;
size_t __wrap_fread(void * b, size_t s, size_t n, FILE * f)
{
    if(on && n && s) {
        /* at the end of the file nothing is lost */
        int c = fgetc(f); if(c == EOF) return __real_fread(b, s, n, f); ungetc(c, f);
        if(strike(shortly ? "reading (short)" : "reading", NULL)) { errno = EIO; errf = f; if(shortly && n > 1) { return __real_fread(b, s, n - 1, f); } return 0; }
    }
    return __real_fread(b, s, n, f);
}
int __wrap_ferror(FILE * f) { return f == errf; }
size_t __wrap_fwrite(const void * b, size_t s, size_t n, FILE * f)
{
    if(on && n && s && strike(shortly ? "writing (short)" : "writing", NULL)) { errno = ENOSPC; return shortly && n > 1 ? __real_fwrite(b, s, n - 1, f) : 0; }
    return __real_fwrite(b, s, n, f);
}
int __wrap_fprintf(FILE * f, const char * m, ...)
{
    if(strike("printing", m)) { errno = ENOSPC; return -1; }
    va_list va; va_start(va, m); int r = vfprintf(f, m, va); va_end(va); return r;
}
int __wrap_fputs(const char * s, FILE * f) { if(strike("printing", s)) { errno = ENOSPC; return EOF; } return fprintf(f, "%s", s) < 0 ? EOF : 1; }
int __wrap_mkdir(const char * p, mode_t m) { struct stat st; if(0 != stat(p, &st) && strike("making directory", p)) { errno = EACCES; return -1; } return __real_mkdir(p, m); }
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if(on && p) live ++; return p; }
void * __wrap_calloc(size_t n, size_t k) { void * p = __real_calloc(n, k); if(on && p) live ++; return p; }
void * __wrap_realloc(void * q, size_t n) { void * p = __real_realloc(q, n); if(on && p && !q) live ++; return p; }
void __wrap_free(void * p) { if(on && p) live --; __real_free(p); }
