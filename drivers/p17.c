/* P17: collective transfers against the raw files */
#include "coll.h"
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    char dir[64]; mpi_scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_mpi_create(&bf, dir, MPI_COMM_WORLD)) fail("create fails");
    while(all_more()) {
        char bt[16], at[16]; Lay L; char ls[300], as[300], p[300];
        pick_types(bt, at);
        lay_pick(&L, bt);
        if(below(3) == 0) { L.size = 0; for(int i = 0; i < L.N; i ++) L.size += L.fs[i] = below(30); }
        lay_str(&L, ls);
        newcase("create %s", ls);
        BigBlock bb;
        CHECK(0 == _big_file_mpi_create_block(&bf, &bb, "b", bt, L.nm, L.N, L.fs, MPI_COMM_WORLD), "create fails: %s", big_file_get_error_message());
        char * img[MAXF]; size_t len[MAXF];
        for(int f = 0; f < L.N; f ++) {
            len[f] = L.fs[f] * L.w; img[f] = malloc(len[f] + 1);
            for(size_t i = 0; i < len[f]; i ++) img[f][i] = 0x80 + (i + f * 5) % 100;
            fpath(p, dir, "b", f); if(RANK == 0) spew(p, img[f], len[f]);
        }
        sync_();
        int ops = range(1, 4);
        for(int k = 0; k < ops; k ++) {
            int64_t p0 = range(0, L.size), tot = range(0, L.size - p0);
            if(below(3) == 0) { p0 = 0; tot = L.size; }
            /* pieces */
            int64_t part[64], off[65]; off[0] = 0;
            int style = below(4); int64_t left = tot;
            for(int r = 0; r < NP; r ++) {
                if(style == 0) part[r] = tot * (r + 1) / NP - tot * r / NP;
                else if(style == 1) part[r] = r == NP - 1 ? left : range(0, left);
                else if(style == 2) part[r] = 0;
                else part[r] = below(2) ? 0 : range(0, left);
                left -= part[r];
            }
            if(style == 2) part[below(NP)] = tot;
            if(style == 3) part[below(NP)] += left;
            for(int r = 0; r < NP; r ++) off[r + 1] = off[r] + part[r];
            int conc = below(3) ? (int) range(-1, NP + 2) : below(8) == 0 ? 0x7fffffff - (int) below(3) : 1 + (int) below(NP);
            size_t agg = below(2) ? below(4) : below(2) ? below(40) : 1 << 20;
            big_file_mpi_set_aggregated_threshold(agg);
            size_t buf = L.w * (1 + below(below(2) ? 3 : 20)) + below(L.w); big_file_set_buffer_size(below(4) ? buf : 1 << 20);
            int write = below(2) || k == 0;
            /* layouts may differ from rank to rank; types may not */
            uint64_t keep = rng_s; rng_s = lrng;
            Arr A; int64_t n = part[RANK];
            memset(&A, 0, sizeof A);
            arr_make(&A, at, n, L.nm);
            while(A.nd != 2 || A.dims[0] != n) { arr_free(&A); arr_make(&A, at, n, L.nm); }
            rng_s = keep;
            arr_str(&A, as);
            char ps[300]; int pn = 0; for(int r = 0; r < NP; r ++) pn += snprintf(ps + pn, sizeof ps - pn, "%ld ", (long) part[r]);
            newcase("block %s, %d ranks: %s rows [%s] at %ld, arrays %s (this rank), concurrency %d, threshold %zu, buffer %zu", ls, NP, write ? "write" : "read", ps, (long) p0, as, conc, agg, buf);
            BigBlockPtr ptr; if(0 != big_block_seek(&bb, &ptr, p0)) fail("seek fails");
            if(write) {
                arr_fill(&A, p0 + off[RANK], k);
                char * cp = malloc(A.len + 1); memcpy(cp, A.mem, A.len);
                int rt = big_block_mpi_write(&bb, &ptr, &A.a, conc, MPI_COMM_WORLD);
                CHECK(rt == 0, "write fails: %s", big_file_get_error_message());
                CHECK(0 == memcmp(cp, A.mem, A.len), "the caller's array changes"); free(cp);
                for(int64_t r = p0; r < p0 + tot; r ++) { int f = 0; while(lay_off(&L, f + 1) <= r) f ++; for(int m = 0; m < L.nm; m ++) put_val(img[f] + (r - lay_off(&L, f)) * L.w + m * t_width(bt), bt, val(r, m, k)); }
                sync_();
                if(RANK == 0) for(int f = 0; f < L.N; f ++) {
                    size_t gn; fpath(p, dir, "b", f); char * g = slurp(p, &gn);
                    CHECK(g && gn == len[f], "file %d has %zu bytes", f, gn);
                    for(size_t i = 0; i < gn; i ++) if(g[i] != img[f][i]) fail("byte %zu of file %d (row %ld) is %d instead of %d", i, f, (long) (lay_off(&L, f) + i / L.w), g[i] & 255, img[f][i] & 255);
                    free(g);
                }
                sync_();
            } else {
                /* what the rows hold, converted: only rows written before are converted exactly */
                int64_t r0 = p0 + off[RANK];
                for(int f = 0; f < L.N; f ++) for(size_t r = 0; r < L.fs[f]; r ++) for(int m = 0; m < L.nm; m ++) put_val(img[f] + r * L.w + m * t_width(bt), bt, val(lay_off(&L, f) + r, m, 9));
                if(RANK == 0) for(int f = 0; f < L.N; f ++) { fpath(p, dir, "b", f); spew(p, img[f], len[f]); }
                sync_();
                int rt = big_block_mpi_read(&bb, &ptr, &A.a, conc, MPI_COMM_WORLD);
                CHECK(rt == 0, "read fails: %s", big_file_get_error_message());
                char * exp = malloc(A.len + 1); memset(exp, 0x5d, A.len + 1);
                for(int64_t e = 0; e < n * L.nm; e ++) put_val(exp + (arr_at(&A, e) - A.mem), at, val(r0 + e / L.nm, e % L.nm, 9));
                for(size_t i = 0; i < A.len; i ++) if(exp[i] != A.mem[i]) fail("rank %d: byte %zu of the array is %d instead of %d", RANK, i, A.mem[i] & 255, exp[i] & 255);
                free(exp);
                sync_();
                if(RANK == 0) for(int f = 0; f < L.N; f ++) { size_t gn; fpath(p, dir, "b", f); char * g = slurp(p, &gn); CHECK(g && gn == len[f] && 0 == memcmp(g, img[f], gn), "file %d is changed by reading", f); free(g); }
                sync_();
            }
            CHECK(ptr.aoffset == p0 + tot && (L.N == 0 || bb.foffset[ptr.fileid] + ptr.roffset == p0 + tot), "rank %d: position is %td (file %d row %td) instead of %ld", RANK, ptr.aoffset, ptr.fileid, ptr.roffset, (long) (p0 + tot));
            arr_free(&A);
        }
        big_file_set_buffer_size(1 << 20);
        CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "close fails");
        for(int f = 0; f < L.N; f ++) free(img[f]);
        sync_(); if(RANK == 0) rmtree(dir), mkdir(dir, 0777); sync_();
    }
    big_file_mpi_close(&bf, MPI_COMM_WORLD);
    if(RANK == 0) rmtree(dir);
    mpi_end();
}
