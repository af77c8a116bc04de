/* P01: seek, seek_rel, eof against a linear scan, on blocks created in memory and on real blocks */
#include "drv.h"
#include "bigfile.h"
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    long round = 0;
    while(more()) {
        round ++;
        char dir[64]; scratch(dir, sizeof(dir));
        int nf = below(4) == 0 ? below(40) : below(7);
        size_t fs[64];
        char desc[1024]; int d = 0;
        size_t tot = 0;
        for(int i = 0; i < nf; i ++) {
            static const int mx[] = {1, 2, 3, 5, 20, 1000};
            fs[i] = below(4) == 0 ? 0 : below(PICK(mx) + 1);
            fs[i] = dict_or(0, 1ll << 40, fs[i]);
            tot += fs[i];
            d += snprintf(desc + d, sizeof(desc) - d, "%zu,", fs[i]);
        }
        if(nf == 0) desc[0] = 0;
        int meta = below(8) == 0;
        BigBlock bb; memset(&bb, 0, sizeof bb);
        BigFile bf;
        newcase("create files=[%s] meta=%d", desc, meta);
        if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED %s\n", big_file_get_error_message()); return 9; }
        if(meta) {
            tot = 0; nf = 0;
            CHECK(0 == big_file_create_block(&bf, &bb, ".", NULL, 0, 0, NULL) || 0 == big_file_open_block(&bf, &bb, "."), "cannot create the root block: %s", big_file_get_error_message());
            if(below(2)) { big_block_close(&bb); CHECK(0 == big_file_open_block(&bf, &bb, "."), "cannot open the root block"); }
        } else {
            CHECK(0 == big_file_create_block(&bf, &bb, "blk", "f8", 1, nf, fs), "cannot create: %s", big_file_get_error_message());
            if(below(2)) { CHECK(0 == big_block_close(&bb), "close"); CHECK(0 == big_file_open_block(&bf, &bb, "blk"), "open"); }
            if(below(3) == 0) {
                size_t gs[3]; int g = below(4); for(int i = 0; i < g; i ++) gs[i] = below(9);
                CHECK(0 == big_block_grow(&bb, g, gs), "grow");
                for(int i = 0; i < g; i ++) { fs[nf++] = gs[i]; tot += gs[i]; d += snprintf(desc + d, sizeof(desc) - d, "+%zu,", gs[i]); }
            }
        }
        BigBlockPtr p, q;
        memset(&p, 0, sizeof p);
        CHECK(0 == big_block_seek(&bb, &p, 0), "seek to 0 fails");
        long curpos = 0;
        for(int k = 0; k < 60; k ++) {
            long r;
            switch(below(5)) {
                case 0: r = range(-(long) tot - 3, (long) tot + 3); break;
                case 1: { long a = 0; int m = below(nf + 1); for(int i = 0; i < m; i ++) a += fs[i]; r = a + range(-1, 1); break; }
                case 2: r = tot; break;
                case 3: r = -(long) below(tot + 1) - 1; break;
                default: r = tot ? below(tot) : 0;
            }
            int rel = below(3) == 0;
            r = dict_or(-(long) tot - 3, (long) tot + 3, r);
            if(rel) r = curpos + dict_or(-(long) tot, (long) tot, r - curpos);
            newcase("files=[%s] total=%zu meta=%d %s from %ld to %ld", desc, tot, meta, rel ? "seek_rel" : "seek", curpos, r);
            q = p;
            int rt = rel ? big_block_seek_rel(&bb, &p, r - curpos) : big_block_seek(&bb, &p, r);
            long want = r < 0 ? r + (long) tot : r;
            if(want < 0 || want > (long) tot) {
                CHECK(rt != 0, "seeking outside the block succeeds");
                CHECK(p.fileid == q.fileid && p.roffset == q.roffset && p.aoffset == q.aoffset, "a refused seek moves the position");
                big_file_set_error_message(NULL);
            } else {
                CHECK(rt == 0, "seek to a row of the block fails: %s", big_file_get_error_message());
                CHECK(p.aoffset == want, "aoffset is %td, not %ld", p.aoffset, want);
                long a = 0; int f;
                if(tot == 0) { CHECK(p.fileid == 0 && p.roffset == 0, "position (%d,%td) in an empty block", p.fileid, p.roffset); }
                else {
                    CHECK(p.fileid >= 0 && p.fileid < nf, "file number %d", p.fileid);
                    for(f = 0; f < p.fileid; f ++) a += fs[f];
                    CHECK(p.roffset == want - a, "roffset is %td in file %d starting at row %ld", p.roffset, p.fileid, a);
                    CHECK(p.roffset >= 0 && (p.roffset < (long) fs[p.fileid] || (want == (long) tot && p.roffset <= (long) fs[p.fileid])), "row %ld is not in file %d", want, p.fileid);
                }
                curpos = want;
            }
            CHECK((big_block_eof(&bb, &p) != 0) == (curpos >= (long) tot), "eof is %d at row %ld of %zu", big_block_eof(&bb, &p), curpos, tot);
        }
        CHECK((size_t) bb.size == tot, "size is %zu", bb.size);
        big_block_close(&bb);
        big_file_close(&bf);
        rmtree(dir);
    }
    done(0);
}
