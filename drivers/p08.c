/* P08: what a flush leaves on disk, and when it may leave the disk alone */
#include "model.h"
int __real_fclose(FILE *); int __real_fprintf(FILE *, const char *, ...);
FILE * __real_fopen(const char *, const char *); FILE * __real_fopen64(const char *, const char *);
static int opened_for_writing, break_at = -1, closes;
static FILE * w_open(const char * p, const char * m, FILE * (*f)(const char *, const char *))
{
    if(*m != 'r' || m[1] == '+') {
        opened_for_writing ++;
        if(break_at == 0) { errno = ENOSPC; return NULL; }
    }
    return f(p, m);
}
FILE * __wrap_fopen(const char * p, const char * m) { return w_open(p, m, __real_fopen); }
FILE * __wrap_fopen64(const char * p, const char * m) { return w_open(p, m, __real_fopen64); }
int __wrap_fclose(FILE * f)
{
    int r = __real_fclose(f);
    if(++ closes == break_at) { errno = ENOSPC; return EOF; }
    return r;
}
typedef struct { char dt[16]; int nm, N; size_t * fs; unsigned int * ck; size_t size; int na; char names[40][40]; } Snap;
static void snap(Snap * s, BigBlock * b)
{
    memset(s, 0, sizeof *s);
    strcpy(s->dt, b->dtype); s->nm = b->nmemb; s->N = b->Nfile; s->size = b->size;
    s->fs = malloc(8 * (s->N + 1)); s->ck = malloc(4 * (s->N + 1));
    memcpy(s->fs, b->fsize, 8 * s->N); memcpy(s->ck, b->fchecksum, 4 * s->N);
    size_t c; BigAttr * a = big_block_list_attrs(b, &c);
    s->na = c; for(size_t i = 0; i < c && i < 40; i ++) strcpy(s->names[i], a[i].name);
}
static void same(Snap * s, BigBlock * b, const char * when)
{
    CHECK(!strcmp(s->dt, b->dtype), "%s: type %s instead of %s", when, b->dtype, s->dt);
    CHECK(s->nm == b->nmemb, "%s: %d members instead of %d", when, b->nmemb, s->nm);
    CHECK(s->N == b->Nfile, "%s: %d files instead of %d", when, b->Nfile, s->N);
    CHECK(s->size == b->size, "%s: size %zu instead of %zu", when, b->size, s->size);
    size_t o = 0;
    for(int i = 0; i < s->N; i ++) {
        CHECK(s->fs[i] == b->fsize[i], "%s: file %d has %zu rows instead of %zu", when, i, b->fsize[i], s->fs[i]);
        CHECK(s->ck[i] == b->fchecksum[i], "%s: checksum of file %d is %u instead of %u", when, i, b->fchecksum[i], s->ck[i]);
        CHECK(o == b->foffset[i], "%s: file %d starts at %zu", when, i, b->foffset[i]);
        o += s->fs[i];
    }
    size_t c; BigAttr * a = big_block_list_attrs(b, &c);
    CHECK(c == (size_t) s->na, "%s: %zu attributes instead of %d", when, c, s->na);
    for(int i = 0; i < s->na && i < 40; i ++) CHECK(!strcmp(a[i].name, s->names[i]), "%s: attribute %s instead of %s", when, a[i].name, s->names[i]);
}
static void unsnap(Snap * s) { free(s->fs); free(s->ck); }
static BigFile bf;
static void disk(Snap * s, const char * when)
{
    BigBlock b;
    CHECK(0 == big_file_open_block(&bf, &b, "b"), "%s: the block cannot be opened: %s", when, big_file_get_error_message());
    same(s, &b, when);
    big_block_close(&b);
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        char bt[16], hist[2000]; int hn = 0;
        sprintf(bt, "%s%s", mark(), PICK(ANY));
        int N = below(12) == 0 ? range(0, 280) : range(0, 4), nm = 1 + below(3);
        if(below(20) == 0) nm = 100000 * range(1, 20000);
        size_t fs[300]; int big = nm > 9 || below(6) == 0; int64_t tot = 0;
        for(int i = 0; i < N; i ++) tot += fs[i] = big ? rnd() >> (16 + below(44)) : below(3) == 0 ? 0 : below(6);
        hn += snprintf(hist, sizeof hist, "create %s x %d with %d files%s", bt, nm, N, big ? " (large)" : "");
        newcase("%s", hist);
        BigBlock bb;
        CHECK(0 == big_file_create_block(&bf, &bb, "b", bt, nm, N, fs), "create fails: %s", big_file_get_error_message());
        Snap s; snap(&s, &bb); disk(&s, "after create"); unsnap(&s);
        int steps = range(1, 6), changed = 0;
        for(int k = 0; k < steps; k ++) {
            int op = below(8);
            char * h = hist + hn; size_t hr = sizeof hist - hn;
            if(op == 0 && !big && bb.size) {
                int64_t r0 = range(0, bb.size - 1), n = range(1, bb.size - r0);
                Arr A; arr_make(&A, bt, n, nm); arr_fill(&A, r0, 1 + k);
                hn += snprintf(h, hr, "; write %ld rows at %ld", (long) n, (long) r0); newcase("%s", hist);
                BigBlockPtr ptr;
                if(big_block_seek(&bb, &ptr, r0) || big_block_write(&bb, &ptr, &A.a)) fail("write fails");
                arr_free(&A); changed = 1;
            } else if(op == 1) {
                char an[32]; int nmm = range(0, 20); double v[20] = {k, 2, 3};
                sprintf(an, "a%d", (int) below(12));
                hn += snprintf(h, hr, "; set %s to %d numbers", an, nmm); newcase("%s", hist);
                CHECK(0 == big_block_set_attr(&bb, an, v, "f8", nmm), "set_attr fails");
                changed = 1;
            } else if(op == 2) {
                char an[32]; sprintf(an, "a%d", (int) below(12));
                int there = big_block_lookup_attr(&bb, an) != NULL;
                hn += snprintf(h, hr, "; remove %s", an); newcase("%s", hist);
                int rt = big_block_remove_attr(&bb, an);
                CHECK((rt == 0) == there, "remove returns %d", rt);
                if(there) changed = 1;
            } else if(op == 3 && bb.Nfile < 250) {
                size_t g[20]; int ng = range(0, 3); for(int i = 0; i < ng; i ++) g[i] = below(5);
                hn += snprintf(h, hr, "; grow by %d", ng); newcase("%s", hist);
                CHECK(0 == big_block_grow(&bb, ng, g), "grow fails"); changed = 1;
            } else if(op == 4) {
                /* a failing flush keeps the block modified */
                hn += snprintf(h, hr, "; flush failing"); newcase("%s", hist);
                break_at = below(3); closes = 0; opened_for_writing = 0;
                int rt = big_block_flush(&bb);
                int hit = break_at == 0 ? opened_for_writing > 0 : closes >= break_at;
                break_at = -1;
                CHECK((rt != 0) == hit, "flush returns %d when the disk %s", rt, hit ? "is full" : "works");
                if(!hit) changed = 0;
            } else {
                hn += snprintf(h, hr, "; flush"); newcase("%s", hist);
                Snap s; snap(&s, &bb);
                opened_for_writing = 0;
                CHECK(0 == big_block_flush(&bb), "flush fails: %s", big_file_get_error_message());
                CHECK(!changed || opened_for_writing, "nothing is written although something changed since the last flush");
                same(&s, &bb, "in memory after flush");
                disk(&s, "reopened after flush"); unsnap(&s);
                changed = 0;
            }
        }
        newcase("%s; close", hist);
        Snap s2; snap(&s2, &bb);
        CHECK(0 == big_block_close(&bb), "close fails: %s", big_file_get_error_message());
        disk(&s2, "reopened after close"); unsnap(&s2);
        rmtree(dir); mkdir(dir, 0777);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
