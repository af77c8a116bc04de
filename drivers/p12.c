/* P12: packing, and the description every rank holds after collective calls */
#include "coll.h"
static void attrs(BigBlock * b, int n, int salt)
{
    char name[300], v[8000];
    for(int i = 0; i < n; i ++) {
        int l = below(10) == 0 ? range(30, 250) : range(1, 10);
        for(int k = 0; k < l; k ++) name[k] = 'a' + below(26); name[l] = 0;
        const char * kw = ANY[below(13)]; int m = below(10) == 0 ? range(50, 400) : range(0, 9);
        char dt[20]; sprintf(dt, "%s%s", mark(), kw);
        for(int k = 0; k < m * t_width(kw); k ++) v[k] = rnd();
        if(salt) CHECK(0 == big_block_set_attr(b, name, v, dt, m), "set_attr fails");
        if(below(6) == 0 && salt) big_block_remove_attr(b, name);
        else if(!salt) below(6);
    }
}
static void everywhere(BigBlock * b, const char * when)
{
    /* the same description as the root; sums only at the root */
    char * d = describe(b, 0); int l = strlen(d);
    int rl = l; MPI_Bcast(&rl, 1, MPI_INT, 0, MPI_COMM_WORLD);
    char * r = malloc(rl + 1); if(RANK == 0) memcpy(r, d, rl + 1);
    MPI_Bcast(r, rl + 1, MPI_BYTE, 0, MPI_COMM_WORLD);
    if(strcmp(d, r)) { int k = 0; while(d[k] && d[k] == r[k]) k ++; fail("%s: rank %d holds '..%.60s', the root '..%.60s'", when, RANK, d + (k > 20 ? k - 20 : 0), r + (k > 20 ? k - 20 : 0)); }
    CHECK(agree(b->dirty), "%s: the ranks disagree on whether the block is modified", when);
    if(RANK != 0) for(int i = 0; i < b->Nfile; i ++) CHECK(b->fchecksum[i] == 0, "%s: rank %d counts from %u", when, RANK, b->fchecksum[i]);
    free(d); free(r);
}
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    char dir[64]; mpi_scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_mpi_create(&bf, dir, MPI_COMM_WORLD)) fail("create fails");
    while(all_more()) {
        static const char * names[] = {"b", "1/Position", "a/b/c"}; char bt[20]; const char * name = PICK(names);
        sprintf(bt, "%s%s", mark(), PICK(ANY));
        int N = below(10) == 0 ? range(0, 300) : range(0, 6), nm = range(1, 4); size_t fs[400], size = 0;
        int big = below(3) == 0;
        for(int i = 0; i < N; i ++) size += fs[i] = big ? rnd() >> (20 + below(40)) : below(9);
        int na = below(3) == 0 ? range(10, 50) : range(0, 4);
        newcase("%d ranks, block %s of %s x %d in %d files%s, about %d attributes", NP, name, bt, nm, N, big ? " (large)" : "", na);
        BigBlock bb;
        if(NP == 1) {
            /* pack, unpack, and let go of the original */
            BigBlock cc; memset(&cc, 0x5a, sizeof cc);
            CHECK(0 == big_file_create_block(&bf, &bb, name, bt, nm, N, fs), "create fails: %s", big_file_get_error_message());
            attrs(&bb, na, 1);
            for(int i = 0; i < N; i ++) bb.fchecksum[i] = rnd();
            int dirty = below(2); big_block_set_dirty(&bb, dirty);
            int saved = below(2); if(saved) { CHECK(0 == big_block_flush(&bb), "flush fails"); }
            int dn = bb.dirty;
            char * want = describe(&bb, 1);
            size_t n = 0; void * p = _big_block_pack(&bb, &n);
            char * d = describe(&bb, 1); CHECK(!strcmp(d, want), "packing changes the block"); free(d);
            void * q = malloc(n); memcpy(q, p, n); free(p);
            char * qc = malloc(n); memcpy(qc, q, n);
            _big_block_unpack(&cc, q);
            CHECK(0 == memcmp(qc, q, n), "unpacking changes the packed form"); free(qc);
            memset(q, 0xee, n); free(q);
            char * b0 = bb.basename; CHECK(cc.basename != b0 && (cc.fsize != bb.fsize) && cc.foffset != bb.foffset && cc.fchecksum != bb.fchecksum && cc.attrset != bb.attrset, "the copy shares memory");
            /* the original goes on changing, then goes away */
            for(int i = 0; i < N; i ++) { bb.fsize[i] = 77; bb.fchecksum[i] ++; }
            attrs(&bb, 2, 1);
            _big_block_close_internal(&bb);
            d = describe(&cc, 1);
            if(strcmp(d, want)) { int k = 0; while(d[k] && d[k] == want[k]) k ++; fail("the copy has '..%.60s' instead of '..%.60s'", d + (k > 20 ? k - 20 : 0), want + (k > 20 ? k - 20 : 0)); }
            CHECK(cc.dirty == dn, "the copy is %smodified", cc.dirty ? "" : "not ");
            free(d);
            /* the copy can be used like any block */
            attrs(&cc, below(4) ? 3 : 40, 1);
            size_t g[2] = {1, 2};
            if(below(2)) CHECK(0 == big_block_grow(&cc, 2, g), "growing the copy fails: %s", big_file_get_error_message());
            if(!dirty && saved) {}
            CHECK(0 == big_block_close(&cc), "closing the copy fails: %s", big_file_get_error_message());
            free(want);
            rmtree(dir); mkdir(dir, 0777);
            continue;
        }
        CHECK(0 == _big_file_mpi_create_block(&bf, &bb, name, bt, nm, N, fs, MPI_COMM_WORLD), "create fails: %s", big_file_get_error_message());
        everywhere(&bb, "after create");
        CHECK(bb.Nfile == N && bb.size == size && bb.nmemb == nm, "rank %d holds %d files and %zu rows after create", RANK, bb.Nfile, bb.size);
        for(int i = 0; i < N; i ++) CHECK(bb.fsize[i] == fs[i], "rank %d: file %d has %zu rows", RANK, i, bb.fsize[i]);
        int steps = range(1, 4);
        for(int k = 0; k < steps; k ++) {
            int op = below(3);
            if(op == 0) {
                attrs(&bb, na, RANK == 0);
                uint64_t s = rng_s; MPI_Bcast(&s, 8, MPI_BYTE, 0, MPI_COMM_WORLD); rng_s = s;
                if(below(2)) big_block_set_dirty(&bb, RANK == (int) below(NP));
                newcase("%d ranks, block of %d files, flush with about %d new attributes at the root", NP, bb.Nfile, na);
                CHECK(0 == big_block_mpi_flush(&bb, MPI_COMM_WORLD), "flush fails: %s", big_file_get_error_message());
                everywhere(&bb, "after flush");
            } else if(op == 1) {
                size_t g[4]; int ng = range(0, 3); for(int i = 0; i < ng; i ++) g[i] = below(9);
                int n0 = bb.Nfile; size_t s0 = bb.size;
                newcase("%d ranks, block of %d files, grow by %d", NP, bb.Nfile, ng);
                CHECK(0 == big_block_mpi_grow(&bb, ng, g, MPI_COMM_WORLD), "grow fails: %s", big_file_get_error_message());
                everywhere(&bb, "after grow");
                CHECK(bb.Nfile == n0 + ng, "rank %d holds %d files after grow", RANK, bb.Nfile);
                for(int i = 0; i < ng; i ++) { CHECK(bb.fsize[n0 + i] == g[i] && bb.foffset[n0 + i] == s0, "rank %d: new file %d is %zu rows at %zu", RANK, i, bb.fsize[n0 + i], bb.foffset[n0 + i]); s0 += g[i]; }
                CHECK(bb.size == s0, "rank %d: size %zu after grow", RANK, bb.size);
            } else {
                newcase("%d ranks, block of %d files, close and open", NP, bb.Nfile);
                CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "close fails: %s", big_file_get_error_message());
                CHECK(0 == big_file_mpi_open_block(&bf, &bb, name, MPI_COMM_WORLD), "open fails: %s", big_file_get_error_message());
                everywhere(&bb, "after open");
            }
        }
        CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "close fails");
        sync_(); if(RANK == 0) rmtree(dir), mkdir(dir, 0777); sync_();
    }
    big_file_mpi_close(&bf, MPI_COMM_WORLD);
    if(RANK == 0) rmtree(dir);
    mpi_end();
}
