/* support for the drivers that run the real code */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <signal.h>
#include <unistd.h>
#include <limits.h>
#include <errno.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
static uint64_t rng_s = 1;
static uint64_t rnd(void)
{
    uint64_t z = (rng_s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a) + 1); }
#define PICK(a) ((a)[below(sizeof(a) / sizeof((a)[0]))])
static char cur[16384] = "start";
static long n_eval, n_distinct, n_sample;
static double t_end;
static int drv_quiet;                 /* MPI: only the chosen rank reports */
static int case_secs = 25;
static uint64_t *seen; static size_t nseen, capseen;
static double now(void) { struct timeval t; gettimeofday(&t, NULL); return t.tv_sec + 1e-6 * t.tv_usec; }
static void done(int code)
{
    if(!drv_quiet) printf("EVALS %ld %ld\n", n_eval, n_distinct);
    fflush(stdout);
    _exit(code);
}
static void fail(const char * fmt, ...)
{
    char b[4096];
    va_list va;
    va_start(va, fmt); vsnprintf(b, sizeof(b), fmt, va); va_end(va);
    for(char * p = b; *p; p ++) if(*p == '\n') *p = ' ';
    printf("FAIL %s | input: %s\n", b, cur);
    done(3);
}
static void known(const char * key, const char * what)
{
    /* reported once; runner.py matches the key with known-findings.txt */
    static char done_[64][64]; static int n;
    for(int i = 0; i < n; i ++) if(0 == strcmp(done_[i], key)) return;
    if(n < 64) snprintf(done_[n++], 64, "%s", key);
    printf("KNOWN %s %s | input: %s\n", key, what, cur);
}
#define CHECK(c, ...) do { if(!(c)) fail(__VA_ARGS__); } while(0)
static void newcase(const char * fmt, ...)
{
    va_list va;
    va_start(va, fmt); vsnprintf(cur, sizeof(cur), fmt, va); va_end(va);
    uint64_t h = 1469598103934665603ull;
    for(char * p = cur; *p; p ++) { if(*p == '\n') *p = ' '; h = (h ^ (uint8_t) *p) * 1099511628211ull; }
    if(h == 0) h = 1;
    n_eval ++;
    if(nseen * 2 >= capseen) {
        size_t oc = capseen; uint64_t * o = seen;
        capseen = capseen ? capseen * 2 : 65536;
        seen = calloc(capseen, 8); nseen = 0;
        for(size_t i = 0; i < oc; i ++) if(o[i]) { size_t j = o[i] % capseen; while(seen[j]) j = (j + 1) % capseen; seen[j] = o[i]; nseen ++; }
        free(o);
    }
    size_t j = h % capseen;
    while(seen[j] && seen[j] != h) j = (j + 1) % capseen;
    if(!seen[j]) { seen[j] = h; nseen ++; n_distinct ++; }
    if(n_sample < 6 && (n_eval & (n_eval - 1)) == 0 && n_eval > 2) { n_sample ++; if(!drv_quiet) printf("SAMPLE %.500s\n", cur); }
    alarm(case_secs);
}
static void on_sig(int s)
{
    char b[17000];
    int n = snprintf(b, sizeof(b), "FAIL %s (signal %d) | input: %s\nEVALS %ld %ld\n", s == SIGALRM ? "no answer: the call did not return" : "the library crashed", s, cur, n_eval, n_distinct);
    fflush(stdout);
    if(write(1, b, n)) {}
    _exit(3);
}
#if defined(__SANITIZE_ADDRESS__)
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void)
{
    char b[17000];
    int n = snprintf(b, sizeof(b), "\nFAIL invalid memory access (AddressSanitizer) | input: %s\nEVALS %ld %ld\n", cur, n_eval, n_distinct);
    if(write(1, b, n)) {}
}
#endif
/* numbers taken from the verifier's countermodels (and their neighbours) */
static int64_t dict_v[512]; static int dict_n;
static void dict_init(void)
{
    char * e = getenv("DRV_DICT");
    while(e && *e && dict_n < 512) {
        char * q; int64_t v = strtoll(e, &q, 10);
        if(q == e) break;
        dict_v[dict_n++] = v;
        e = *q == ',' ? q + 1 : q;
    }
}
/* a number in [lo, hi], now and then one from a countermodel; dict_or falls back on the given one */
static int64_t dict_or(int64_t lo, int64_t hi, int64_t dflt)
{
    if(dict_n && below(3) == 0) {
        for(int k = 0; k < 8; k ++) {
            int64_t v = dict_v[below(dict_n)];
            if(below(6) == 0) v += range(-1, 1);
            if(v >= lo && v <= hi) return v;
        }
    }
    return dflt;
}
static int more(void) { return now() < t_end; }
static void drv_init(int argc, char ** argv)
{
    rng_s = argc > 1 ? strtoull(argv[1], 0, 0) * 0x1234567ull + 12345 : 1;
    t_end = now() + (argc > 2 ? atof(argv[2]) : 5);
    dict_init();
    setvbuf(stdout, NULL, _IOLBF, 0);
    signal(SIGALRM, on_sig);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(on_death);
#else
    signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
#endif
    signal(SIGFPE, on_sig); signal(SIGABRT, on_sig); signal(SIGILL, on_sig);
}
/* scratch directory management: everything lives below the current directory, which check.py created */
static void rmtree(const char * d)
{
    DIR * D = opendir(d);
    if(!D) return;
    struct dirent * e;
    char p[4096];
    while((e = readdir(D))) {
        if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(p, sizeof(p), "%s/%s", d, e->d_name);
        struct stat st;
        if(lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p);
    }
    closedir(D);
    rmdir(d);
}
static void scratch(char * buf, size_t n)
{
    static long k;
    snprintf(buf, n, "w%d_%ld", (int) getpid(), k++);
    if(mkdir(buf, 0777) != 0) { printf("SETUP-FAILED mkdir\n"); exit(9); }
}
static char * slurp(const char * path, size_t * n)
{
    FILE * f = fopen(path, "rb");
    if(!f) { *n = 0; return NULL; }
    size_t cap = 4096, len = 0; char * b = malloc(cap + 1);
    while(1) {
        size_t r = fread(b + len, 1, cap - len, f);
        if(r == 0) break;
        len += r;
        if(len == cap) b = realloc(b, (cap *= 2) + 1);
    }
    fclose(f);
    b[len] = 0; *n = len;
    return b;
}
static int exists(const char * path) { struct stat st; return stat(path, &st) == 0; }
#endif
