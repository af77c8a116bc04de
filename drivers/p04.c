/* P04: refused requests touch nothing */
#include "model.h"
#include <sys/mman.h>
static int opens; static int counting;
FILE * __real_fopen(const char * p, const char * m);
FILE * __wrap_fopen(const char * p, const char * m) { if(counting) opens ++; return __real_fopen(p, m); }
FILE * __real_fopen64(const char * p, const char * m);
FILE * __wrap_fopen64(const char * p, const char * m) { if(counting) opens ++; return __real_fopen64(p, m); }
int __real_open(const char * p, int f, int m);
int __wrap_open(const char * p, int f, int m) { if(counting) opens ++; return __real_open(p, f, m); }
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    case_secs = 10;
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    char * locked = mmap(NULL, 1 << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    while(more()) {
        char bt[16], at[16]; Lay L; char ls[300], as[300];
        pick_types(bt, at);
        lay_pick(&L, bt);
        int zero = below(6) == 0;
        if(zero) L.nm = 0;
        BigBlock bb;
        lay_str(&L, ls);
        newcase("create %s", ls);
        int meta = below(12) == 0;
        if(meta) { if(0 != big_file_open_block(&bf, &bb, ".")) fail("opening the root block fails: %s", big_file_get_error_message()); }
        else if(0 != big_file_create_block(&bf, &bb, "b", bt, L.nm, L.N, L.fs)) fail("create fails: %s", big_file_get_error_message());
        int64_t size = meta ? 0 : L.size;
        for(int k = 0; k < 3; k ++) {
            size_t w = t_width(bt) * (L.nm ? L.nm : 1);
            int64_t r0 = range(0, size), n; size_t buf = w * (1 + below(4)); int small = 0;
            if(zero || meta) { n = range(1, 6); }
            else if(below(3) == 0 && size > r0 && w > 1) { n = range(1, size - r0); buf = below(w); small = 1; }
            else { n = size - r0 + range(1, 9); if(below(10) == 0) n = dict_or(size - r0 + 1, size + 4096, n); }
            int wr = below(2);
            Arr A; arr_make(&A, at, n, L.nm ? L.nm : 1); arr_str(&A, as);
            if(A.len < (1 << 19)) A.a.data = locked + (1 << 19);   /* touching any element faults */
            newcase("block %s%s: %s %ld rows at %ld of %ld, array %s, buffer %zu", meta ? "(root) " : "", ls, wr ? "write" : "read", (long) n, (long) r0, (long) size, as, buf);
            BigBlockPtr ptr;
            if(0 != big_block_seek(&bb, &ptr, r0)) fail("seek fails");
            BigBlockPtr p0 = ptr;
            big_file_set_buffer_size(buf);
            unsigned int cks[MAXF]; for(int f = 0; f < bb.Nfile; f ++) cks[f] = bb.fchecksum[f];
            opens = 0; counting = 1;
            int rt = wr ? big_block_write(&bb, &ptr, &A.a) : big_block_read(&bb, &ptr, &A.a);
            counting = 0;
            CHECK(rt != 0, "the request is accepted");
            CHECK(opens == 0, "%d files are opened although the request is refused", opens);
            CHECK(0 == memcmp(&p0, &ptr, sizeof ptr), "the position changes although the request is refused");
            for(int f = 0; f < bb.Nfile; f ++) CHECK(cks[f] == bb.fchecksum[f], "checksum changes although the request is refused");
            CHECK(big_file_get_error_message() != NULL, "no error message");
            big_file_set_error_message(NULL);
            arr_free(&A);
        }
        /* valid request on the same block still works */
        big_file_set_buffer_size(1 << 20);
        if(!zero && !meta) {
            BigBlockPtr ptr; Arr A; int64_t n = range(0, size);
            arr_make(&A, at, n, L.nm); arr_fill(&A, 0, 0);
            big_file_set_buffer_size(L.w * (1 + below(3)));
            newcase("block %s: valid write of %ld rows", ls, (long) n);
            CHECK(0 == big_block_seek(&bb, &ptr, 0) && 0 == big_block_write(&bb, &ptr, &A.a), "a valid write is refused: %s", big_file_get_error_message());
            CHECK(0 == big_block_seek(&bb, &ptr, 0) && 0 == big_block_read(&bb, &ptr, &A.a), "a valid read is refused: %s", big_file_get_error_message());
            arr_free(&A);
            big_file_set_buffer_size(1 << 20);
        }
        CHECK(0 == big_block_close(&bb), "close fails");
        big_file_set_error_message(NULL);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
