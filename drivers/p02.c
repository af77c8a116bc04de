/* P02: writes, checked against the raw bytes of the physical files */
#include "model.h"
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        if(n_eval < 40 ? below(4) == 0 : below(60) == 0) { far(&bf, dir, 1); continue; }
        char bt[16], at[16]; Lay L; char ls[300], as[300], p[300];
        pick_types(bt, at);
        lay_pick(&L, bt);
        BigBlock bb;
        newcase("create %s", bt);
        if(0 != big_file_create_block(&bf, &bb, "b", bt, L.nm, L.N, L.fs)) fail("create fails: %s", big_file_get_error_message());
        lay_str(&L, ls);
        /* image of every file: bytes and length */
        char * img[MAXF]; size_t len[MAXF];
        for(int f = 0; f < L.N; f ++) {
            size_t n = L.fs[f] * L.w;
            int pre = below(3);            /* empty, full or with extra bytes behind the rows */
            img[f] = calloc(n + 16, 1); len[f] = 0;
            if(pre) {
                len[f] = n + (pre == 2 ? below(16) : 0);
                for(size_t i = 0; i < len[f]; i ++) img[f][i] = 0x80 + (i + f * 5) % 100;
                fpath(p, dir, "b", f); spew(p, img[f], len[f]);
            }
        }
        unsigned int sum[MAXF]; for(int f = 0; f < L.N; f ++) sum[f] = bb.fchecksum[f];
        int nw = 1 + below(3);
        for(int k = 0; k < nw; k ++) {
            int64_t r0 = range(0, L.size), n = range(0, L.size - r0);
            if(below(3) == 0) { r0 = 0; n = L.size; }
            r0 = dict_or(0, L.size, r0); if(n > L.size - r0) n = L.size - r0;
            Arr A; arr_make(&A, at, n, L.nm); arr_str(&A, as);
            arr_fill(&A, r0, k);
            size_t buf = L.w * (1 + below(below(2) ? 3 : 20)) + below(L.w);
            if(below(5) == 0) buf = 1 << 20;
            big_file_set_buffer_size(buf);
            newcase("block %s: write %ld rows at %ld from %s, buffer %zu", ls, (long) n, (long) r0, as, buf);
            BigBlockPtr ptr;
            int via = below(2);
            if(0 != big_block_seek(&bb, &ptr, via ? r0 : 0)) fail("seek fails");
            if(!via && 0 != big_block_seek_rel(&bb, &ptr, r0)) fail("relative seek fails");
            big_block_set_dirty(&bb, 0);
            char * copy = malloc(A.len + 1); memcpy(copy, A.mem, A.len);
            int rt = big_block_write(&bb, &ptr, &A.a);
            CHECK(rt == 0, "write fails: %s", big_file_get_error_message());
            CHECK(ptr.aoffset == r0 + n && (L.N == 0 || bb.foffset[ptr.fileid] + ptr.roffset == r0 + n), "position is %td (file %d row %td) after writing up to %ld", ptr.aoffset, ptr.fileid, ptr.roffset, (long) (r0 + n));
            CHECK(n == 0 || bb.dirty, "block is not marked as modified");
            CHECK(0 == memcmp(copy, A.mem, A.len), "the array is changed");
            free(copy);
            for(int64_t r = r0; r < r0 + n; r ++) {
                int f = 0; while(r >= lay_off(&L, f + 1)) f ++;
                size_t o = (r - lay_off(&L, f)) * L.w;
                for(int m = 0; m < L.nm; m ++) put_val(img[f] + o + m * t_width(bt), bt, val(r, m, k));
                if(o + L.w > len[f]) len[f] = o + L.w;
            }
            for(int f = 0; f < L.N; f ++) {
                size_t gn; fpath(p, dir, "b", f);
                char * g = slurp(p, &gn);
                CHECK(g != NULL, "file %d is missing", f);
                CHECK(gn == len[f], "file %d has %zu bytes instead of %zu", f, gn, len[f]);
                for(size_t i = 0; i < gn; i ++)
                    if(g[i] != img[f][i]) fail("file %d byte %zu (row %zu) is %d instead of %d", f, i, i / L.w + lay_off(&L, f), g[i] & 255, img[f][i] & 255);
                free(g);
            }
            arr_free(&A);
            /* the tables are not touched by a write */
            for(int f = 0; f < L.N; f ++) CHECK(bb.fsize[f] == L.fs[f] && bb.foffset[f] == lay_off(&L, f), "table entry %d changes", f);
        }
        big_file_set_buffer_size(1 << 20);
        CHECK(0 == big_block_close(&bb), "close fails");
        for(int f = 0; f < L.N; f ++) free(img[f]);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
