/* P03: reads from physical files written by this program */
#include "model.h"
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        if(n_eval < 40 ? below(4) == 0 : below(60) == 0) { far(&bf, dir, 0); continue; }
        char bt[16], at[16]; Lay L; char ls[300], as[300], p[300];
        pick_types(bt, at);
        lay_pick(&L, bt);
        BigBlock bb;
        newcase("create %s", bt);
        if(0 != big_file_create_block(&bf, &bb, "b", bt, L.nm, L.N, L.fs)) fail("create fails: %s", big_file_get_error_message());
        lay_str(&L, ls);
        char * img[MAXF]; size_t len[MAXF];
        for(int f = 0; f < L.N; f ++) {
            size_t n = L.fs[f] * L.w;
            img[f] = malloc(n + 16);
            for(size_t r = 0; r < L.fs[f]; r ++) for(int m = 0; m < L.nm; m ++) put_val(img[f] + r * L.w + m * t_width(bt), bt, val(lay_off(&L, f) + r, m, 1));
            len[f] = n + below(2) * below(16);
            memset(img[f] + n, 0xee, len[f] - n);
            fpath(p, dir, "b", f); spew(p, img[f], len[f]);
        }
        int nw = 1 + below(4);
        for(int k = 0; k < nw; k ++) {
            int64_t r0 = range(0, L.size), n = range(0, L.size - r0);
            if(below(3) == 0) { r0 = 0; n = L.size; }
            r0 = dict_or(0, L.size, r0); if(n > L.size - r0) n = L.size - r0;
            size_t buf = L.w * (1 + below(below(2) ? 3 : 20)) + below(L.w);
            if(below(5) == 0) buf = 1 << 20;
            big_file_set_buffer_size(buf);
            if(below(4) == 0) {
                /* the allocating helper */
                int64_t want = range(0, L.size + 5), start = below(4) == 0 && r0 < L.size ? r0 - L.size : r0;
                char at2[16]; strcpy(at2, at); int nul = below(2);
                newcase("block %s: read_simple start %ld, %ld rows, type %s, buffer %zu", ls, (long) start, (long) want, nul ? "NULL" : at2, buf);
                BigArray a; memset(&a, 0, sizeof a);
                int rt = big_block_read_simple(&bb, start, want, &a, nul ? NULL : at2);
                CHECK(rt == 0, "read fails: %s", big_file_get_error_message());
                int64_t exp = want < L.size - r0 ? want : L.size - r0;
                CHECK(a.dims[0] == exp, "%zu rows are reported instead of %ld", a.dims[0], (long) exp);
                CHECK(a.size == exp * L.nm, "%zu items are reported", a.size);
                const char * t = nul ? bt : at2; int w = t_width(t);
                char ref[32];
                for(int64_t e = 0; e < exp * L.nm; e ++) {
                    put_val(ref, t, val(r0 + e / L.nm, e % L.nm, 1));
                    CHECK(0 == memcmp((char*) a.data + e * w, ref, w), "row %ld member %ld is wrong", (long) (r0 + e / L.nm), (long) (e % L.nm));
                }
                free(a.data);
                continue;
            }
            Arr A, B; arr_make(&A, at, n, L.nm); arr_str(&A, as);
            newcase("block %s: read %ld rows at %ld into %s, buffer %zu", ls, (long) n, (long) r0, as, buf);
            BigBlockPtr ptr;
            if(0 != big_block_seek(&bb, &ptr, r0)) fail("seek fails");
            BigBlock before = bb;
            int rt = big_block_read(&bb, &ptr, &A.a);
            CHECK(rt == 0, "read fails: %s", big_file_get_error_message());
            CHECK(0 == memcmp(&before, &bb, sizeof bb), "the block description changes");
            CHECK(ptr.aoffset == r0 + n && (L.N == 0 || bb.foffset[ptr.fileid] + ptr.roffset == r0 + n), "position is %td (file %d row %td) after reading up to %ld", ptr.aoffset, ptr.fileid, ptr.roffset, (long) (r0 + n));
            char * exp = malloc(A.len + 1); memset(exp, 0x5d, A.len + 1);
            for(int64_t e = 0; e < n * L.nm; e ++) put_val(exp + (arr_at(&A, e) - A.mem), at, val(r0 + e / L.nm, e % L.nm, 1));
            for(size_t i = 0; i < A.len; i ++) if(exp[i] != A.mem[i]) fail("byte %zu of the array is %d instead of %d", i, A.mem[i] & 255, exp[i] & 255);
            free(exp);
            arr_free(&A);
        }
        for(int f = 0; f < L.N; f ++) {
            size_t gn; fpath(p, dir, "b", f); char * g = slurp(p, &gn);
            CHECK(g && gn == len[f] && 0 == memcmp(g, img[f], gn), "file %d is changed by reading", f);
            free(g); free(img[f]);
        }
        big_file_set_buffer_size(1 << 20);
        CHECK(0 == big_block_close(&bb), "close fails");
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
