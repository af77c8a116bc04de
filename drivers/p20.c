/* P20: type strings, and which types are accepted for storage */
#include "drv.h"
#include "bigfile.h"
#include "bigfile-internal.h"
static int ref_norm(const char * s, char * mark, char * rest)
{
    int e = 1; const char * p = s; char nat = *(char*) &e ? '<' : '>';
    if(*p && strchr("<>|=", *p)) { *mark = *p == '<' || *p == '>' ? *p : nat; p ++; } else *mark = nat;
    strncpy(rest, p, 6); rest[6] = 0;
    return 0;
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        char s[32]; int n = 0;
        if(below(3)) {
            static const char * m[] = {"", "<", ">", "=", "|", "#", "!", "<<"};
            static const char * k[] = {"i", "u", "f", "c", "S", "b", "a", "x", "q", "", "I", "F", "U", "B"};
            static const char * w[] = {"1", "2", "4", "8", "16", "3", "0", "17", "15", "32", "", "-1", "-8", "08", "100", "12345", "+4"};
            sprintf(s, "%s%s%s", PICK(m), PICK(k), PICK(w));
        } else {
            int L = below(9);
            static const char al[] = "<>|=iufcSba0123456789 x#-";
            for(n = 0; n < L; n ++) s[n] = below(5) ? al[below(sizeof al - 1)] : (char) range(1, 255);
            s[n] = 0;
        }
        char * heap = strdup(s);            /* exact size: reading past the end is detected */
        char esc[200]; int e = 0; for(char * p = s; *p; p ++) e += sprintf(esc + e, *p > 32 && *p < 127 ? "%c" : "\\x%02x", (unsigned char) *p); esc[e] = 0;
        newcase("type string '%s'", esc);
        struct { char pre[8]; char d[8]; char post[8]; } b; memset(&b, 0x7e, sizeof b);
        char mark, rest[8];
        ref_norm(s, &mark, rest);
        _dtype_normalize(b.d, heap);
        CHECK(memchr(b.d, 0, 8), "not terminated within eight bytes");
        CHECK(b.d[0] == mark && 0 == strcmp(b.d + 1, rest), "normalised to '%.8s'", b.d);
        for(int j = 0; j < 8; j ++) CHECK(b.pre[j] == 0x7e && b.post[j] == 0x7e, "writes outside eight bytes");
        char d2[8]; memset(d2, 1, 8);
        _dtype_normalize(d2, b.d);
        CHECK(0 == strcmp(d2, b.d), "not idempotent: '%.8s' becomes '%.8s'", b.d, d2);
        CHECK((char) big_file_dtype_kind(heap) == rest[0], "kind is %d", big_file_dtype_kind(heap));
        int w = rest[0] ? atoi(rest + 1) : 0;
        CHECK(big_file_dtype_itemsize(heap) == w, "item size is %d, not %d", big_file_dtype_itemsize(heap), w);
        CHECK(big_file_dtype_itemsize(b.d) == w && (char) big_file_dtype_kind(b.d) == rest[0], "kind or width change when the byte order is written out");
        if(strlen(s) < 7 && below(8) == 0) {
            BigBlock bb; size_t fs[1] = {0};
            int blank = 0; for(char * p = rest; *p; p ++) if(strchr(" \t\n\v\f\r", *p)) blank = 1;
            int want = rest[0] && strchr("Sbifuc", rest[0]) && w >= 1 && w <= 16;
            int rt = big_file_create_block(&bf, &bb, "b", heap, 1, 1, fs);
            CHECK((rt == 0) == want, "creating a block of this type %s", rt ? "is refused" : "is accepted");
            if(rt == 0) {
                CHECK(0 == big_block_close(&bb), "close fails");
                if(!blank) {
                    CHECK(0 == big_file_open_block(&bf, &bb, "b"), "the block cannot be opened: %s", big_file_get_error_message());
                    CHECK(bb.dtype[0] == mark && 0 == strcmp(bb.dtype + 1, rest), "opened as '%.8s'", bb.dtype);
                    big_block_close(&bb);
                }
            } else {
                /* the same type in a header written by someone else is refused as well */
                char p[200]; snprintf(p, sizeof p, "%s/b/header", dir);
                if(!blank && rest[0] && exists(p)) {
                    FILE * f = fopen(p, "w"); fprintf(f, "DTYPE: %s\nNMEMB: 1\nNFILE: 0\n", s); fclose(f);
                    rt = big_file_open_block(&bf, &bb, "b");
                    CHECK(rt != 0, "a header with this type is opened");
                }
            }
            big_file_set_error_message(NULL);
        }
        free(heap);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
