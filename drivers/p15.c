/* P15: which rank creates which file, and how rows are split */
#include "coll.h"
FILE * __real_fopen(const char *, const char *); FILE * __real_fopen64(const char *, const char *);
static int made[4000], touched[4000], on;
static void note(const char * p, const char * m)
{
    const char * b = strrchr(p, '/'); b = b ? b + 1 : p;
    if(!on || strlen(b) != 6 || strspn(b, "0123456789ABCDEF") != 6) return;
    int id = strtol(b, NULL, 16); if(id < 4000) { touched[id] ++; if(*m == 'w') made[id] ++; }
}
FILE * __wrap_fopen(const char * p, const char * m) { note(p, m); return __real_fopen(p, m); }
FILE * __wrap_fopen64(const char * p, const char * m) { note(p, m); return __real_fopen64(p, m); }
static void tally(int from, int to, const char * when)
{
    int t[4000], m[4000];
    MPI_Allreduce(touched, t, 4000, MPI_INT, MPI_SUM, MPI_COMM_WORLD); MPI_Allreduce(made, m, 4000, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    for(int i = 0; i < 4000; i ++) {
        if(i >= from && i < to) CHECK(m[i] == 1 && t[i] == 1, "%s: file %d of %d..%d is created %d times", when, i, from, to, m[i]);
        else CHECK(t[i] == 0, "%s: file %d, which is not new (%d..%d), is opened", when, i, from, to);
    }
    memset(made, 0, sizeof made); memset(touched, 0, sizeof touched);
}
static void split(BigBlock * bb, int from, int F, size_t rows, const char * when)
{
    size_t s = 0, mn = (size_t) -1, mx = 0;
    for(int i = from; i < from + F; i ++) { s += bb->fsize[i]; if(bb->fsize[i] < mn) mn = bb->fsize[i]; if(bb->fsize[i] > mx) mx = bb->fsize[i]; CHECK((ptrdiff_t) bb->fsize[i] >= 0, "%s: file %d has %zd rows", when, i, (ssize_t) bb->fsize[i]); }
    CHECK(s == rows, "%s: %d files hold %zu rows instead of %zu", when, F, s, rows);
    if(F) CHECK(mx - mn <= 1, "%s: the largest of %d files has %zu rows, the smallest %zu", when, F, mx, mn);
}
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    char dir[64], p[300]; mpi_scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_mpi_create(&bf, dir, MPI_COMM_WORLD)) fail("create fails");
    while(all_more()) {
        int F = below(8) == 0 ? range(1, 200) : range(1, 3 * NP + 3);
        F = dict_or(1, 60, F);
        size_t rows = below(3) == 0 ? below(F + 2) : below(2) ? below(1000) : rnd() >> (below(4) ? 24 + below(20) : 4);
        rows = dict_or(0, 1ll << 40, rows);
        BigBlock bb;
        newcase("%d ranks: create %zu rows in %d files", NP, rows, F);
        on = 1;
        int own = below(4) == 0; size_t fs[300];
        if(own) { rows = 0; F = below(6) == 0 ? 0 : F; for(int i = 0; i < F; i ++) rows += fs[i] = below(5); CHECK(0 == _big_file_mpi_create_block(&bf, &bb, "b", "f4", 1, F, fs, MPI_COMM_WORLD), "create fails"); }
        else CHECK(0 == big_file_mpi_create_block(&bf, &bb, "b", "f4", 1, F, rows, MPI_COMM_WORLD), "create fails: %s", big_file_get_error_message());
        on = 0;
        CHECK(bb.Nfile == F && bb.size == rows, "rank %d: %d files with %zu rows", RANK, bb.Nfile, bb.size);
        if(own) for(int i = 0; i < F; i ++) CHECK(bb.fsize[i] == fs[i], "file %d has %zu rows instead of %zu", i, bb.fsize[i], fs[i]); else split(&bb, 0, F, rows, "create");
        tally(0, F, "create");
        int g = range(0, 3);
        while(g --) {
            sync_();
            int old = bb.Nfile; if(RANK == 0) for(int i = 0; i < old; i ++) { sprintf(p, "%s/b/%06X", dir, i); spew(p, "keep", 4); }
            sync_();
            int G = range(1, below(4) ? 2 * NP + 1 : 40); size_t add = below(2) ? below(2 * G) : rnd() >> (below(4) ? 24 + below(20) : 5); size_t before = bb.size;
            newcase("%d ranks: grow %d files (%zu rows) by %zu rows in %d files", NP, old, before, add, G);
            own = below(4) == 0;
            on = 1;
            if(own) { if(below(5) == 0) G = 0; add = 0; for(int i = 0; i < G; i ++) add += fs[i] = below(5); CHECK(0 == big_block_mpi_grow(&bb, G, fs, MPI_COMM_WORLD), "grow fails"); }
            else CHECK(0 == big_block_mpi_grow_simple(&bb, G, add, MPI_COMM_WORLD), "grow fails: %s", big_file_get_error_message());
            on = 0;
            CHECK(bb.Nfile == old + G && bb.size == before + add, "rank %d: %d files with %zu rows after growing", RANK, bb.Nfile, bb.size);
            if(!own) split(&bb, old, G, add, "grow"); else for(int i = 0; i < G; i ++) CHECK(bb.fsize[old + i] == fs[i], "file %d has %zu rows instead of %zu", old + i, bb.fsize[old + i], fs[i]);
            tally(old, old + G, "grow");
            sync_();
            if(RANK == 0) {
                for(int i = 0; i < old + G; i ++) { size_t n; sprintf(p, "%s/b/%06X", dir, i); char * b = slurp(p, &n); CHECK(b && (i < old ? n == 4 && !memcmp(b, "keep", 4) : n == 0), "file %d has %zu bytes after growing from %d", i, b ? n : (size_t) -1, old); free(b); }
                sprintf(p, "%s/b/%06X", dir, old + G); CHECK(!exists(p), "file %d appears", old + G);
            }
            sync_();
        }
        CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "close fails");
        sync_(); if(RANK == 0) rmtree(dir), mkdir(dir, 0777); sync_();
    }
    big_file_mpi_close(&bf, MPI_COMM_WORLD);
    if(RANK == 0) rmtree(dir);
    mpi_end();
}
