/* P14: records through the disk, against the raw files */
#include "model.h"
static const char * FK[] = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "S3", "S1", "b1", "i2"};
#define MF 8
typedef struct { char name[40]; char bt[16], dt[16]; int nm, off, w; char * img; } F;
static F f[MF]; static int nf; static size_t fs[64]; static int N; static int64_t size;
static char dir[64];
static unsigned int sum0[MF][64];
static void check_disk(BigFile * bf, const char * when)
{
    char p[300];
    for(int i = 0; i < nf; i ++) {
        int64_t o = 0;
        for(int k = 0; k < N; k ++) {
            size_t gn; sprintf(p, "%s/%s/%06X", dir, f[i].name, k);
            char * g = slurp(p, &gn); CHECK(g, "%s: file %d of field %s is missing", when, k, f[i].name);
            size_t want = fs[k] * f[i].w;
            CHECK(gn <= want, "%s: file %d of field %s is too long", when, k, f[i].name);
            for(size_t b = 0; b < want; b ++) { char have = b < gn ? g[b] : 0; if(have != f[i].img[o * f[i].w + b]) fail("%s: byte %zu of file %d of field %s is %d instead of %d", when, b, k, f[i].name, have & 255, f[i].img[o * f[i].w + b] & 255); }
            o += fs[k]; free(g);
        }
        BigBlock bb;
        CHECK(0 == big_file_open_block(bf, &bb, f[i].name), "%s: field %s cannot be opened", when, f[i].name);
        CHECK(bb.Nfile == N && bb.size == size && bb.nmemb == f[i].nm && !strcmp(bb.dtype + 1, strchr("<>=|", f[i].bt[0]) ? f[i].bt + 1 : f[i].bt), "%s: block %s has %d files, %zu rows, %d x %s", when, f[i].name, bb.Nfile, bb.size, bb.nmemb, bb.dtype);
        for(int k = 0; k < N; k ++) CHECK(bb.fsize[k] == fs[k], "%s: file %d of %s has %zu rows instead of %zu", when, k, f[i].name, bb.fsize[k], fs[k]);
        CHECK(big_block_lookup_attr(&bb, "keep") != NULL || !strchr(when, '!'), "%s: an attribute of %s is lost", when, f[i].name);
        big_block_close(&bb);
    }
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        BigRecordType rt; memset(&rt, 0, sizeof rt);
        nf = range(1, MF); N = range(0, 5); size = 0;
        char hist[2000]; int hn = 0; hist[0] = 0;
        int w = 0;
        for(int i = 0; i < nf; i ++) {
            sprintf(f[i].name, "%s%d", below(3) ? "f" : "g/x", i);
            sprintf(f[i].bt, "%s%s", mark(), PICK(FK)); f[i].nm = range(1, 3);
            f[i].w = t_width(f[i].bt) * f[i].nm; f[i].off = w; w += f[i].w;
            hn += snprintf(hist + hn, sizeof hist - hn, "%s %s x %d,", f[i].name, f[i].bt, f[i].nm);
            big_record_type_add(&rt, f[i].name, f[i].bt, f[i].nm);
        }
        big_record_type_complete(&rt);
        for(int k = 0; k < N; k ++) size += fs[k] = below(3) == 0 ? 0 : below(7);
        newcase("records {%s} create with %d files, %ld rows", hist, N, (long) size);
        CHECK(0 == big_file_create_records(&bf, &rt, "w+", N, fs), "create fails: %s", big_file_get_error_message());
        for(int i = 0; i < nf; i ++) f[i].img = calloc(size * f[i].w + 1, 1);
        check_disk(&bf, "after create");
        if(below(4) == 0) {
            static const char * bad[] = {"r", "w", "a", "", "r+", "w++", "a+b", "W+"}; const char * m = PICK(bad);
            newcase("records {%s} create with mode '%s'", hist, m);
            CHECK(0 != big_file_create_records(&bf, &rt, m, N, fs), "the mode is accepted");
            check_disk(&bf, "after a refused mode");
        }
        int attr = below(2);
        if(attr) for(int i = 0; i < nf; i ++) { BigBlock b; big_file_open_block(&bf, &b, f[i].name); int one = 1; big_block_set_attr(&b, "keep", &one, "i4", 1); big_block_close(&b); }
        const char * mk = attr ? "!" : "";
        int steps = range(1, 4); char wh[100];
        for(int s = 0; s < steps; s ++) {
            int64_t r0 = range(0, size), n = range(0, size - r0);
            int bf_sz = w * (1 + below(10)) + below(w); big_file_set_buffer_size(below(3) ? bf_sz + 64 : 1 << 20);
            int op = below(6);
            if(op < 3) {
                char * rec = malloc(n * w + 1), * cp = malloc(n * w + 1);
                for(int64_t b = 0; b < n * w; b ++) cp[b] = rec[b] = rnd();
                int neg = below(5) == 0 && size && r0 < size;
                newcase("records {%s} in %d files of %ld rows: write %ld at %ld", hist, N, (long) size, (long) n, (long) (neg ? r0 - size : r0));
                CHECK(0 == big_file_write_records(&bf, &rt, neg ? r0 - size : r0, n, rec), "write fails: %s", big_file_get_error_message());
                CHECK(0 == memcmp(rec, cp, n * w), "writing changes the records");
                for(int i = 0; i < nf; i ++) for(int64_t r = 0; r < n; r ++) memcpy(f[i].img + (r0 + r) * f[i].w, rec + r * w + f[i].off, f[i].w);
                snprintf(wh, sizeof wh, "%safter write", mk); check_disk(&bf, wh);
                free(rec); free(cp);
            } else if(op < 5) {
                /* all rows must exist physically */
                for(int i = 0; i < nf; i ++) { int64_t o = 0; for(int k = 0; k < N; k ++) { char p[300]; sprintf(p, "%s/%s/%06X", dir, f[i].name, k); spew(p, f[i].img + o * f[i].w, fs[k] * f[i].w); o += fs[k]; } }
                char * rec = malloc(n * w + 1); memset(rec, 0x3c, n * w + 1);
                newcase("records {%s} in %d files of %ld rows: read %ld at %ld", hist, N, (long) size, (long) n, (long) r0);
                CHECK(0 == big_file_read_records(&bf, &rt, r0, n, rec), "read fails: %s", big_file_get_error_message());
                for(int i = 0; i < nf; i ++) for(int64_t r = 0; r < n; r ++) CHECK(0 == memcmp(f[i].img + (r0 + r) * f[i].w, rec + r * w + f[i].off, f[i].w), "field %d of record %ld is wrong", i, (long) r);
                CHECK(rec[n * w] == 0x3c, "reading writes past the end");
                snprintf(wh, sizeof wh, "%safter read", mk); check_disk(&bf, wh);
                free(rec);
            } else {
                int g = range(0, 3); int64_t add = 0; if(N + g > 60) g = 0;
                for(int k = 0; k < g; k ++) add += fs[N + k] = below(5);
                newcase("records {%s} in %d files of %ld rows: append %d files", hist, N, (long) size, g);
                CHECK(0 == big_file_create_records(&bf, &rt, "a+", g, fs + N), "append fails: %s", big_file_get_error_message());
                for(int i = 0; i < nf; i ++) { f[i].img = realloc(f[i].img, (size + add) * f[i].w + 1); memset(f[i].img + size * f[i].w, 0, add * f[i].w); }
                N += g; size += add;
                snprintf(wh, sizeof wh, "%safter append", mk); check_disk(&bf, wh);
            }
        }
        big_file_set_buffer_size(1 << 20);
        /* failing steps */
        int64_t over = size + 1; char * rec = calloc(over, w); char p[300];
        newcase("records {%s}: %ld rows into %ld", hist, (long) over, (long) size);
        CHECK(0 != big_file_write_records(&bf, &rt, 0, over, rec), "writing too many records succeeds");
        CHECK(0 != big_file_read_records(&bf, &rt, 0, over, rec), "reading too many records succeeds");
        CHECK(0 != big_file_write_records(&bf, &rt, size + 2, 0, rec) , "a position outside succeeds");
        int k = below(nf); sprintf(p, "%s/%s/header", dir, f[k].name); unlink(p);
        newcase("records {%s} without the block of field %d", hist, k);
        CHECK(0 != big_file_write_records(&bf, &rt, 0, size, rec), "writing succeeds without a block");
        CHECK(0 != big_file_read_records(&bf, &rt, 0, size, rec), "reading succeeds without a block");
        size_t g1[1] = {1};
        CHECK(0 != big_file_create_records(&bf, &rt, "a+", 1, g1), "appending succeeds without a block");
        free(rec);
        for(int i = 0; i < nf; i ++) free(f[i].img);
        big_record_type_clear(&rt);
        rmtree(dir); mkdir(dir, 0777);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
