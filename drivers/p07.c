/* P07: created and grown blocks, tables in memory and files on disk */
#include "model.h"
static int64_t fsz(const char * p) { struct stat st; return stat(p, &st) == 0 && S_ISREG(st.st_mode) ? (int64_t) st.st_size : -1; }
static void tables(BigBlock * bb, int N, size_t * fs, unsigned int * ck, const char * dt, int nm, const char * when)
{
    CHECK(bb->Nfile == N, "%s: %d files instead of %d", when, bb->Nfile, N);
    CHECK(bb->nmemb == nm, "%s: %d members instead of %d", when, bb->nmemb, nm);
    CHECK(t_width(bb->dtype) == t_width(dt) && !strcmp(bb->dtype + 1, strchr("<>=|", dt[0]) ? dt + 1 : dt), "%s: type %s", when, bb->dtype);
    size_t s = 0;
    for(int i = 0; i < N; i ++) {
        CHECK(bb->fsize[i] == fs[i], "%s: file %d has %zu rows instead of %zu", when, i, bb->fsize[i], fs[i]);
        CHECK(bb->foffset[i] == s, "%s: file %d starts at %zu instead of %zu", when, i, bb->foffset[i], s);
        CHECK(bb->fchecksum[i] == ck[i], "%s: checksum of file %d is %u instead of %u", when, i, bb->fchecksum[i], ck[i]);
        s += fs[i];
    }
    CHECK(bb->foffset[N] == s && bb->size == s, "%s: size is %zu instead of %zu", when, bb->size, s);
}
static int count(const char * dir)
{
    DIR * d = opendir(dir); struct dirent * e; int n = 0;
    if(!d) return -1;
    while((e = readdir(d))) if(strlen(e->d_name) == 6 && strspn(e->d_name, "0123456789ABCDEF") == 6) n ++;
    closedir(d);
    return n;
}
#define MX 700
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        if(below(8) == 0) {
            static const char * bad[] = {"a b", " a", "a ", "a\tb", "a\nb", "d/x y", "q q/x", "\t"};
            const char * name = PICK(bad);
            newcase("create with the name '%s'", name);
            BigBlock bb; size_t fs[1] = {3};
            CHECK(0 != big_file_create_block(&bf, &bb, name, "f8", 1, 1, fs), "a name with blanks is accepted");
            rmtree(dir); mkdir(dir, 0777);
            continue;
        }
        char bt[16]; static const char * names[] = {"b", "1/Position", "a/b/c/d", "x.y", "deep/er"};
        const char * name = PICK(names);
        sprintf(bt, "%s%s", mark(), PICK(ANY));
        int N = below(10) == 0 ? range(0, 300) : range(0, 5), nm = 1 + below(4), w = t_width(bt) * nm;
        size_t fs[MX]; unsigned int ck[MX] = {0}; char p[300], bd[200];
        int huge = below(5) == 0;
        for(int i = 0; i < N; i ++) fs[i] = below(4) == 0 ? 0 : huge ? (below(3) ? rnd() >> (20 + below(30)) : 4294967296ull * below(3)) : dict_or(0, 50, below(9));
        snprintf(bd, sizeof bd, "%s/%s", dir, name);
        /* sometimes there is an older block with data of the same name */
        int old = below(3) == 0 ? range(1, 6) : 0;
        if(old) {
            BigBlock b0; size_t f0[8]; for(int i = 0; i < old; i ++) f0[i] = 1 + below(3);
            if(0 == big_file_create_block(&bf, &b0, name, "i4", 1, old, f0)) {
                for(int i = 0; i < old; i ++) { snprintf(p, sizeof p, "%s/%06X", bd, i); spew(p, "12345678", 8); }
                big_block_set_attr(&b0, "old", "x", "S1", 1);
                big_block_close(&b0);
            }
        }
        newcase("create %s of %s x %d with %d files%s (first sizes %zu %zu %zu) over %d old files", name, bt, nm, N, huge ? ", huge" : "", N > 0 ? fs[0] : 0, N > 1 ? fs[1] : 0, N > 2 ? fs[2] : 0, old);
        BigBlock bb; memset(&bb, 0x5a, sizeof bb);
        CHECK(0 == big_file_create_block(&bf, &bb, name, bt, nm, N, fs), "create fails: %s", big_file_get_error_message());
        tables(&bb, N, fs, ck, bt, nm, "after create");
        for(int i = 0; i < N; i ++) { snprintf(p, sizeof p, "%s/%06X", bd, i); CHECK(fsz(p) == 0, "file %06X has %ld bytes after create", i, (long) fsz(p)); }
        CHECK(count(bd) == (N > old ? N : old), "%d physical files after create instead of %d", count(bd), N);
        CHECK(big_block_lookup_attr(&bb, "old") == NULL, "an attribute of the older block is left");
        /* what is on disk */
        BigBlock cc;
        CHECK(0 == big_file_open_block(&bf, &cc, name), "a created block cannot be opened: %s", big_file_get_error_message());
        tables(&cc, N, fs, ck, bt, nm, "reopened after create");
        CHECK(big_block_lookup_attr(&cc, "old") == NULL, "an attribute of the older block is left on disk");
        big_block_close(&cc);
        int rounds = below(4);
        static char * img[MX]; static size_t len[MX];
        memset(img, 0, sizeof img); memset(len, 0, sizeof len);
        for(int k = 0; k < rounds && N < MX - 301; k ++) {
            int filled = -1;
            if(!huge && bb.size > 0 && below(3)) {
                /* rows in the old files */
                BigBlockPtr ptr; int64_t r0 = range(0, bb.size - 1), n = range(1, bb.size - r0);
                char nt[16]; strcpy(nt, bt);
                Arr A; arr_make(&A, nt, n, nm); arr_fill(&A, r0, k);
                if(0 != big_block_seek(&bb, &ptr, r0) || 0 != big_block_write(&bb, &ptr, &A.a)) fail("a write after %d growths fails: %s", k, big_file_get_error_message());
                arr_free(&A); filled = 1;
            }
            for(int i = 0; i < N; i ++) { snprintf(p, sizeof p, "%s/%06X", bd, i); free(img[i]); img[i] = slurp(p, &len[i]); ck[i] = bb.fchecksum[i]; }
            int g = below(10) == 0 ? range(0, 300) : range(0, 4);
            for(int i = 0; i < g; i ++) fs[N + i] = below(4) == 0 ? 0 : huge ? rnd() >> (20 + below(30)) : below(9), ck[N + i] = 0;
            newcase("block of %d files (%s x %d%s), grow number %d by %d files (first %zu) %s", N, bt, nm, huge ? ", huge" : "", k, g, g ? fs[N] : 0, filled > 0 ? "after a write" : "");
            /* something may be lying where a new file goes */
            if(g && below(4) == 0) { snprintf(p, sizeof p, "%s/%06X", bd, N + (int) below(g)); spew(p, "leftover", 8); }
            CHECK(0 == big_block_grow(&bb, g, fs + N), "grow fails: %s", big_file_get_error_message());
            int N1 = N + g;
            tables(&bb, N1, fs, ck, bt, nm, "after grow");
            for(int i = 0; i < N; i ++) {
                size_t gn; snprintf(p, sizeof p, "%s/%06X", bd, i); char * b = slurp(p, &gn);
                CHECK(b && gn == len[i] && !memcmp(b, img[i], gn), "file %06X is changed by growing", i); free(b);
            }
            for(int i = N; i < N1; i ++) { snprintf(p, sizeof p, "%s/%06X", bd, i); CHECK(fsz(p) == 0, "new file %06X has %ld bytes", i, (long) fsz(p)); }
            CHECK(count(bd) == (N1 > old ? N1 : old), "%d physical files after grow instead of %d", count(bd), N1);
            if(below(2)) { CHECK(0 == big_block_flush(&bb), "flush fails"); }
            N = N1;
        }
        for(int i = 0; i < N; i ++) ck[i] = bb.fchecksum[i];
        CHECK(0 == big_block_close(&bb), "close fails: %s", big_file_get_error_message());
        CHECK(0 == big_file_open_block(&bf, &cc, name), "the block cannot be opened: %s", big_file_get_error_message());
        tables(&cc, N, fs, ck, bt, nm, "reopened");
        big_block_close(&cc);
        for(int i = 0; i < MX; i ++) { free(img[i]); img[i] = NULL; }
        rmtree(dir); mkdir(dir, 0777);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
