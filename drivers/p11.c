/* P11: checksums of serial and collective writes against sums of the bytes written */
#include "coll.h"
static void on_disk(const char * dir, int N, unsigned int * sum, const char * when)
{
    char p[300]; size_t gn; sprintf(p, "%s/b/header", dir);
    char * g = slurp(p, &gn); CHECK(g, "%s: there is no header", when);
    char * q = strstr(g, "NFILE:"); CHECK(q, "%s: no NFILE", when); q = strchr(q, '\n');
    for(int i = 0; i < N; i ++) {
        int id; long sz; unsigned a, b; CHECK(q && 4 == sscanf(q, " %X: %ld : %u : %u", &id, &sz, &a, &b) && id == i, "%s: line of file %d is missing", when, i);
        CHECK(a == sum[i], "%s: the header gives %u as the sum of file %d instead of %u", when, a, i, sum[i]);
        unsigned r = (sum[i] & 0xffff) + (sum[i] >> 16); unsigned s = (r & 0xffff) + (r >> 16);
        CHECK(b == s, "%s: the header gives %u as the System V checksum of file %d instead of %u", when, b, i, s);
        q = strchr(q + 1, '\n');
    }
    free(g);
}
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    char dir[64]; mpi_scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_mpi_create(&bf, dir, MPI_COMM_WORLD)) fail("create fails");
    while(all_more()) {
        char bt[16], at[16]; Lay L; char ls[300];
        pick_types(bt, at);
        lay_pick(&L, bt); if(L.N == 0) { L.N = 1; L.size = L.fs[0] = 3; }
        lay_str(&L, ls);
        static char hist[4000]; int hn = snprintf(hist, sizeof hist, "%s block %s;", NP == 1 ? "serial" : "collective", ls);
        newcase("%s", hist);
        BigBlock bb;
        CHECK(0 == _big_file_mpi_create_block(&bf, &bb, "b", bt, L.nm, L.N, L.fs, MPI_COMM_WORLD), "create fails: %s", big_file_get_error_message());
        unsigned sum[MAXF + 8] = {0};
        if(below(3) == 0) {
            /* sums near the top of 32 bits: the root holds what was counted before */
            for(int f = 0; f < L.N; f ++) { sum[f] = below(2) ? 0xffffffffu - below(3000) : rnd(); if(below(4) == 0) sum[f] = 0xffff0000u + below(65536); }
            if(RANK == 0) { memcpy(bb.fchecksum, sum, 4 * L.N); big_block_set_dirty(&bb, 1); }
            hn += snprintf(hist + hn, sizeof hist - hn, "sums start at %u..;", sum[0]);
        }
        int ops = range(1, 7);
        for(int k = 0; k < ops && hn < 3500; k ++) {
            int op = below(8);
            if(op < 4 && L.size) {
                int who = below(3) == 0 ? -1 : (int) below(NP);
                int64_t r0[32], n[32], last = 0;
                if(who < 0) {
                    /* each rank writes on its own, disjoint rows */
                    for(int r = 0; r < NP; r ++) { r0[r] = range(last, L.size); n[r] = range(0, L.size - r0[r]); last = r0[r] + n[r]; }
                } else for(int r = 0; r < NP; r ++) { r0[r] = 0; n[r] = 0; if(r == who) { r0[r] = range(0, L.size); n[r] = range(0, L.size - r0[r]); } }
                int coll = below(2);
                if(coll) { last = range(0, L.size); r0[0] = last; for(int r = 0; r < NP; r ++) { r0[r] = last; n[r] = range(0, L.size - last); last += n[r]; } }
                hn += snprintf(hist + hn, sizeof hist - hn, "%s", coll ? "collective write" : "write");
                for(int r = 0; r < NP; r ++) hn += snprintf(hist + hn, sizeof hist - hn, " %ld@%ld", (long) n[r], (long) r0[r]);
                hn += snprintf(hist + hn, sizeof hist - hn, ";"); newcase("%s", hist);
                size_t buf = L.w * (1 + below(6)) + below(L.w); big_file_set_buffer_size(below(4) ? buf : 1 << 20);
                big_file_mpi_set_aggregated_threshold(below(3) ? below(10) : 1 << 20); int conc = range(0, NP);
                int big = below(2); /* values with large bytes */
                int g = below(30);
                uint64_t keep = rng_s; rng_s = lrng;
                Arr A; do { arr_make(&A, big ? bt : at, n[RANK], L.nm); if(A.nd == 2 && A.dims[0] == n[RANK]) break; arr_free(&A); } while(1);
                rng_s = keep;
                if(big) for(int64_t e = 0; e < n[RANK] * L.nm; e ++) { char * q = arr_at(&A, e); for(int i = 0; i < t_width(bt); i ++) q[i] = 255 - ((r0[RANK] * L.nm + e) * 7 + i * 3 + g) % 200; }
                else arr_fill(&A, r0[RANK], g);
                BigBlockPtr ptr;
                CHECK(0 == big_block_seek(&bb, &ptr, coll ? r0[0] : r0[RANK]), "seek fails");
                if(coll) CHECK(0 == big_block_mpi_write(&bb, &ptr, &A.a, conc, MPI_COMM_WORLD), "write fails: %s", big_file_get_error_message());
                else CHECK(0 == big_block_write(&bb, &ptr, &A.a), "write fails: %s", big_file_get_error_message());
                arr_free(&A);
                for(int r = 0; r < NP; r ++) for(int64_t w = r0[r]; w < r0[r] + n[r]; w ++) {
                    int f = 0; while(lay_off(&L, f + 1) <= w) f ++;
                    for(int m = 0; m < L.nm; m ++) {
                        char q[32]; int tw = t_width(bt);
                        if(big) for(int i = 0; i < tw; i ++) q[i] = 255 - ((r0[r] * L.nm + ((w - r0[r]) * L.nm + m)) * 7 + i * 3 + g) % 200;
                        else put_val(q, bt, val(w, m, g));
                        for(int i = 0; i < tw; i ++) sum[f] += (unsigned char) q[i];
                    }
                }
                if(NP == 1) for(int f = 0; f < L.N; f ++) CHECK(bb.fchecksum[f] == sum[f], "the sum of file %d is %u instead of %u", f, bb.fchecksum[f], sum[f]);
            } else if(op < 6) {
                int times = below(3) == 0 ? 2 : 1;
                hn += snprintf(hist + hn, sizeof hist - hn, "flush x %d;", times); newcase("%s", hist);
                while(times --) { if(NP == 1 && below(2)) { CHECK(0 == big_block_flush(&bb), "flush fails"); } else CHECK(0 == big_block_mpi_flush(&bb, MPI_COMM_WORLD), "flush fails: %s", big_file_get_error_message()); }
                sync_();
                if(RANK == 0 && k > 0) { if(bb.size) { on_disk(dir, L.N, sum, "after flush"); } }
                sync_();
            } else if(op == 6 && L.N < MAXF - 2) {
                size_t g[3]; int ng = range(0, 2); for(int i = 0; i < ng; i ++) g[i] = below(5);
                hn += snprintf(hist + hn, sizeof hist - hn, "grow by %d;", ng); newcase("%s", hist);
                CHECK(0 == big_block_mpi_grow(&bb, ng, g, MPI_COMM_WORLD), "grow fails");
                for(int i = 0; i < ng; i ++) { L.fs[L.N] = g[i]; L.size += g[i]; sum[L.N] = 0; L.N ++; }
            } else {
                hn += snprintf(hist + hn, sizeof hist - hn, "close and open;"); newcase("%s", hist);
                if(RANK == 0) big_block_set_dirty(&bb, 1);
                CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "close fails");
                sync_(); if(RANK == 0) on_disk(dir, L.N, sum, "after close"); sync_();
                CHECK(0 == big_file_mpi_open_block(&bf, &bb, "b", MPI_COMM_WORLD), "open fails");
            }
        }
        newcase("%s close", hist);
        if(RANK == 0) big_block_set_dirty(&bb, 1);
        CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "close fails");
        sync_(); if(RANK == 0) { on_disk(dir, L.N, sum, "after close"); rmtree(dir); mkdir(dir, 0777); } sync_();
    }
    big_file_mpi_close(&bf, MPI_COMM_WORLD);
    if(RANK == 0) rmtree(dir);
    mpi_end();
}
