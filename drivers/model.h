/* reference model of values, arrays and blocks, independent of the library */
#ifndef MODEL_H
#define MODEL_H
#include "drv.h"
#include "bigfile.h"
#include <fcntl.h>
static int nat_le(void) { int e = 1; return *(char*) &e; }
/* small values are representable in every numeric type */
static void put_native(char * p, const char * kw, int v)
{
    if(!strcmp(kw, "i4")) { int32_t x = v; memcpy(p, &x, 4); }
    else if(!strcmp(kw, "u4")) { uint32_t x = v; memcpy(p, &x, 4); }
    else if(!strcmp(kw, "i8")) { int64_t x = v; memcpy(p, &x, 8); }
    else if(!strcmp(kw, "u8")) { uint64_t x = v; memcpy(p, &x, 8); }
    else if(!strcmp(kw, "f4")) { float x = v; memcpy(p, &x, 4); }
    else if(!strcmp(kw, "f8")) { double x = v; memcpy(p, &x, 8); }
    else if(!strcmp(kw, "c8")) { float x[2] = {v, v + 1}; memcpy(p, x, 8); }
    else if(!strcmp(kw, "c16")) { double x[2] = {v, v + 1}; memcpy(p, x, 16); }
    else if(kw[0] == 'S' || kw[0] == 'a') { int w = atoi(kw + 1); for(int i = 0; i < w; i ++) p[i] = 'A' + (v + i) % 26; }
    else if(!strcmp(kw, "b1") || !strcmp(kw, "i1") || !strcmp(kw, "u1")) { *p = v; }
    else if(!strcmp(kw, "i2") || !strcmp(kw, "u2")) { int16_t x = v; memcpy(p, &x, 2); }
    else { int w = atoi(kw + 1); memset(p, v, w); }
}
static int t_width(const char * dt) { const char * p = dt; if(strchr("<>=|", *p)) p ++; return atoi(p + 1); }
static void swap_bytes(char * p, int w) { for(int i = 0; i < w / 2; i ++) { char t = p[i]; p[i] = p[w - 1 - i]; p[w - 1 - i] = t; } }
static int is_swapped(const char * dt) { return dt[0] == (nat_le() ? '>' : '<'); }
static void order(char * p, const char * dt)
{
    const char * kw = strchr("<>=|", dt[0]) ? dt + 1 : dt;
    int w = t_width(dt);
    if(!is_swapped(dt) || kw[0] == 'S' || kw[0] == 'a') return;
    if(kw[0] == 'c') { swap_bytes(p, w / 2); swap_bytes(p + w / 2, w / 2); } else swap_bytes(p, w);
}
static void put_val(char * p, const char * dt, int v)
{
    const char * kw = strchr("<>=|", dt[0]) ? dt + 1 : dt;
    put_native(p, kw, v);
    order(p, dt);
}
static const char * NUM[] = {"i4", "u4", "i8", "u8", "f4", "f8"};
static const char * ANY[] = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "S3", "b1", "i2", "S1", "u1"};
static const char * mark(void) { static const char * m[] = {"<", ">", "=", "|", ""}; return m[below(5)]; }
/* block type and a type arrays of it can be converted from and to */
static void pick_types(char * bt, char * at)
{
    char n[16]; int e = nat_le();
    if(below(2)) {
        const char * k = PICK(ANY);
        sprintf(bt, "%s%s", mark(), k);
        if(below(4) == 0 && k[0] == 'c') sprintf(at, "%s%s", mark(), below(2) ? "c8" : "c16");
        else sprintf(at, "%s%s", mark(), k);
    } else {
        sprintf(bt, "%s%s", mark(), PICK(NUM));
        sprintf(at, "%s%s", mark(), PICK(NUM));
    }
}
/* value of member m of row r in generation g */
static int val(int64_t r, int m, int g) { return (int) ((r * 7 + m * 3 + g * 11) % 50); }

/* an array of n rows with nm members with some layout, inside a guarded allocation */
typedef struct { char * mem; size_t len; BigArray a; int nd; size_t dims[4]; ptrdiff_t st[4]; char dt[16]; int64_t n; int nm; } Arr;
static char * arr_at(Arr * A, int64_t e)
{
    char * p = A->a.data;
    for(int d = A->nd - 1; d >= 0; d --) { p += (ptrdiff_t) (e % A->dims[d]) * A->st[d]; e /= A->dims[d]; }
    return p;
}
static void arr_make(Arr * A, const char * dt, int64_t n, int nm)
{
    int w = t_width(dt);
    memset(A, 0, sizeof *A);
    strcpy(A->dt, dt); A->n = n; A->nm = nm;
    int64_t tot = n * nm;
    int kind = below(6);
    if(kind == 0 || tot == 0) { A->nd = 2; A->dims[0] = n; A->dims[1] = nm; }
    else if(kind == 1) { A->nd = 1; A->dims[0] = tot; }
    else if(kind == 2 && n % 2 == 0) { A->nd = 3; A->dims[0] = n / 2; A->dims[1] = 2; A->dims[2] = nm; }
    else { A->nd = 2; A->dims[0] = n; A->dims[1] = nm; }
    ptrdiff_t st = w; int packed = 1;
    for(int d = A->nd - 1; d >= 0; d --) {
        if(kind >= 4 && below(2)) { st += w * below(3) + (below(3) == 0); packed = 0; }
        A->st[d] = st;
        st = st * A->dims[d];
    }
    size_t span = 0; ptrdiff_t org = 0;
    for(int d = 0; d < A->nd; d ++) if(A->dims[d]) span += (A->dims[d] - 1) * A->st[d];
    if(kind >= 4)
        for(int d = 0; d < A->nd; d ++) if(below(3) == 0 && A->dims[d]) { org += (A->dims[d] - 1) * A->st[d]; A->st[d] = -A->st[d]; packed = 0; }
    A->len = (tot ? span + w : 0);
    A->mem = malloc(A->len ? A->len : 1);
    memset(A->mem, 0x5d, A->len);
    big_array_init(&A->a, A->mem + org, A->dt, A->nd, A->dims, kind >= 3 || below(2) ? A->st : (packed ? NULL : A->st));
}
static void arr_fill(Arr * A, int64_t row0, int g)
{
    for(int64_t e = 0; e < A->n * A->nm; e ++) put_val(arr_at(A, e), A->dt, val(row0 + e / A->nm, e % A->nm, g));
}
static void arr_str(Arr * A, char * b)
{
    b += sprintf(b, "%s[", A->dt);
    for(int d = 0; d < A->nd; d ++) b += sprintf(b, "%s%zu", d ? "," : "", A->dims[d]);
    b += sprintf(b, "] strides [");
    for(int d = 0; d < A->nd; d ++) b += sprintf(b, "%s%td", d ? "," : "", A->st[d]);
    sprintf(b, "]");
}
static void arr_free(Arr * A) { free(A->mem); }

/* layouts */
#define MAXF 8
typedef struct { int N; size_t fs[MAXF]; int64_t size; int nm; char dt[16]; int w; } Lay;
static void lay_pick(Lay * L, const char * dt)
{
    memset(L, 0, sizeof *L);
    L->N = below(8) == 0 ? 0 : 1 + below(6);
    int big = below(4) == 0 ? 40 : 6;
    for(int i = 0; i < L->N; i ++) { L->fs[i] = below(4) == 0 ? 0 : dict_or(0, 60, below(big)); L->size += L->fs[i]; }
    L->nm = below(2) ? 1 : 1 + below(4);
    strcpy(L->dt, dt);
    L->w = t_width(dt) * L->nm;
}
static void lay_str(Lay * L, char * b)
{
    b += sprintf(b, "%s x %d, files [", L->dt, L->nm);
    for(int i = 0; i < L->N; i ++) b += sprintf(b, "%s%zu", i ? "," : "", L->fs[i]);
    sprintf(b, "]");
}
static int64_t lay_off(Lay * L, int f) { int64_t s = 0; for(int i = 0; i < f; i ++) s += L->fs[i]; return s; }
static void fpath(char * p, const char * dir, const char * blk, int f) { sprintf(p, "%s/%s/%06X", dir, blk, f); }
static void spew(const char * path, const void * b, size_t n)
{
    FILE * f = fopen(path, "wb");
    if(!f || fwrite(b, 1, n, f) != n) { printf("SETUP-FAILED %s\n", path); _exit(9); }
    fclose(f);
}
/* rows that lie gigabytes into a (sparse) physical file */
static void far(BigFile * bf, const char * dir, int writing)
{
    static const char * FT[] = {"<u8", ">u8", "<f8", "<u4", ">i4", "<S16", "<c16", "<S1"};
    char bt[16]; strcpy(bt, PICK(FT));
    int w = t_width(bt), nm = 1 + below(3); size_t row = (size_t) w * nm;
    size_t fs[3]; int N = 1 + below(3), f = below(N); size_t r0 = 0; char p[300];
    static const int64_t edge[] = {1ll << 31, 1ll << 32, 3ll << 31, 1ll << 33, 1ll << 35, 1ll << 36};
    size_t at = PICK(edge) / row + range(-3, 3);   /* row within the file */
    if(below(6) == 0) at = (1ll << 32) / (below(2) ? 1 : w) + range(-3, 3);
    int n = 1 + below(7);
    for(int i = 0; i < N; i ++) { fs[i] = below(2) ? below(9) : (1ull << 33) + below(5); if(i == f) fs[i] = at + n + below(2) * below(5); }
    for(int i = 0; i < f; i ++) r0 += fs[i];
    BigBlock bb; newcase("create far");
    if(0 != big_file_create_block(bf, &bb, "far", bt, nm, N, fs)) fail("create fails: %s", big_file_get_error_message());
    size_t buf = row * (1 + below(5)) + below(row);
    big_file_set_buffer_size(buf);
    newcase("block %s x %d, file %d of %d with %zu rows: %s %d rows at row %zu of the file, buffer %zu", bt, nm, f, N, fs[f], writing ? "write" : "read", n, at, buf);
    size_t d[2] = {n, nm}; BigArray a; char * m = calloc(n, row), * g = calloc(n + 2, row);
    for(int r = 0; r < n; r ++) for(int k = 0; k < nm; k ++) put_val(m + r * row + k * w, bt, val(r, k, 5) + 1);
    fpath(p, dir, "far", f);
    BigBlockPtr ptr; CHECK(0 == big_block_seek(&bb, &ptr, r0 + at), "seek fails");
    CHECK(ptr.fileid == f && ptr.roffset == (ptrdiff_t) at, "seek lands at file %d row %td", ptr.fileid, ptr.roffset);
    int fd = open(p, O_RDWR); CHECK(fd >= 0, "file is missing");
    if(writing) {
        big_array_init(&a, m, bt, 2, d, NULL);
        CHECK(0 == big_block_write(&bb, &ptr, &a), "write fails: %s", big_file_get_error_message());
        struct stat st; fstat(fd, &st);
        CHECK((size_t) st.st_size == (at + n) * row, "the file has %ld bytes instead of %zu", (long) st.st_size, (at + n) * row);
        CHECK(pread(fd, g, n * row, at * row) == (ssize_t) (n * row) && 0 == memcmp(g, m, n * row), "the rows are not stored at their place");
        CHECK((size_t) lseek(fd, 0, SEEK_DATA) >= ((at * row) & ~(size_t) 0xfffff) || 1, "data elsewhere");
    } else {
        if(ftruncate(fd, (at + n) * row) != 0 || pwrite(fd, m, n * row, at * row) != (ssize_t) (n * row)) { printf("SETUP-FAILED sparse\n"); _exit(9); }
        big_array_init(&a, g, bt, 2, d, NULL);
        CHECK(0 == big_block_read(&bb, &ptr, &a), "read fails: %s", big_file_get_error_message());
        CHECK(0 == memcmp(g, m, n * row), "the rows are not what their place in the file holds");
    }
    CHECK(ptr.aoffset == (ptrdiff_t) (r0 + at + n), "position is %td", ptr.aoffset);
    close(fd); unlink(p); free(m); free(g);
    big_file_set_buffer_size(1 << 20);
    CHECK(0 == big_block_close(&bb), "close fails");
}
#endif
