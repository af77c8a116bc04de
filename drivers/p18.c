/* P18: every operating system failure, one at a time */
#include "model.h"
#include "faults.h"

static char dir[64];
static Lay L; static char bt[16]; static BigFile bf; static int na;
static void make(void)
{
    rmtree(dir); __real_mkdir(dir, 0777);
    BigBlock bb; double v[300];
    for(int i = 0; i < 300; i ++) v[i] = i;
    if(0 != big_file_create_block(&bf, &bb, "d/b", bt, L.nm, L.N, L.fs)) fail("setup: create");
    for(int i = 0; i < na; i ++) { char n[20]; sprintf(n, "a%d", i); if(0 != big_block_set_attr(&bb, n, v, "f8", i % 3 ? 1 : i % 2 ? 40 : 3)) fail("setup: attr"); }
    if(L.size) {
        Arr A; char t[16]; strcpy(t, bt); arr_make(&A, t, L.size, L.nm); arr_fill(&A, 0, 0);
        BigBlockPtr ptr; if(big_block_seek(&bb, &ptr, 0) || big_block_write(&bb, &ptr, &A.a)) fail("setup: write"); arr_free(&A);
    }
    if(big_block_close(&bb)) fail("setup: close");
}
static void v1(void)
{
    /* an attribute file of the first version */
    char p[200]; sprintf(p, "%s/d/b/attr", dir); FILE * f = __real_fopen(p, "wb"); int n = 2, l = 4; double d[2] = {1, 2};
    for(int k = 0; k < 2; k ++) { __real_fwrite(&n, 4, 1, f); __real_fwrite(&l, 4, 1, f); __real_fwrite("<f8\0\0\0\0\0", 8, 1, f); __real_fwrite(k ? "old1" : "old2", 4, 1, f); __real_fwrite(d, 8, 2, f); }
    __real_fclose(f);
}
static const char * OPS[] = {"create block", "open block", "write", "read", "read_simple", "flush", "close", "grow", "create records", "append records", "write records", "read records", "create file", "flush after write", "open block with v1 attributes"};
static int run(int op, int k, int64_t r0, int64_t n, int * reported)
{
    /* returns whether the failure was injected; everything is released at the end */
    BigBlock bb; Arr A; BigArray sa; memset(&sa, 0, sizeof sa); BigBlockPtr ptr; int open_ = 0; char t[16]; strcpy(t, bt);
    BigFile f2; memset(&f2, 0, sizeof f2);
    BigRecordType rt; memset(&rt, 0, sizeof rt); char * rec = NULL;
    if(op == 2 || op == 3 || op == 13) { arr_make(&A, t, n, L.nm); arr_fill(&A, r0, 3); }
    int needs = op >= 2 && op <= 7 && op != 12 || op == 13;
    if(op == 14) v1();
    if(op >= 8 && op <= 11) {
        big_record_type_add(&rt, "d/b", bt, L.nm); big_record_type_add(&rt, "d/c", "f4", 2); big_record_type_complete(&rt);
        size_t w = rt.itemsize; rec = calloc(L.size + 1, w);
        if(op > 8) { BigBlock b2; if(big_file_create_block(&bf, &b2, "d/c", "f4", 2, L.N, L.fs)) fail("setup: c"); float * z = calloc(L.size * 2 + 1, 4); size_t dd[2] = {L.size, 2}; BigArray za; big_array_init(&za, z, "f4", 2, dd, NULL); if(L.size) { big_block_seek(&b2, &ptr, 0); if(big_block_write(&b2, &ptr, &za)) fail("setup: c"); } free(z); big_block_close(&b2); }
    }
    if(big_file_get_error_message()) big_file_set_error_message(NULL);
    live = 0; handles = 0; count = 0; hit[0] = 0; target = 0; errf = NULL; memset(H, 0, sizeof H);
    on = 1;
    if(needs) { if(big_file_open_block(&bf, &bb, "d/b")) fail("setup: open: %s", big_file_get_error_message()); open_ = 1; big_block_seek(&bb, &ptr, r0); }
    if(op == 5 || op == 6) { int v = 7; big_block_set_attr(&bb, "new", &v, "i4", 1); big_block_set_dirty(&bb, below(2)); }
    if(op == 13) { if(big_block_write(&bb, &ptr, &A.a)) fail("setup: write"); }
    if(big_file_get_error_message()) big_file_set_error_message(NULL);
    long live0 = live; (void) live0;
    count = 0; target = k;
    int rc = -100; size_t g[2] = {2, 3};
    switch(op) {
        case 0: rc = big_file_create_block(&bf, &bb, "n/e/w", bt, L.nm, L.N, L.fs); open_ = rc == 0; break;
        case 1: case 14: rc = big_file_open_block(&bf, &bb, "d/b"); open_ = rc == 0; break;
        case 2: rc = big_block_write(&bb, &ptr, &A.a); break;
        case 3: rc = big_block_read(&bb, &ptr, &A.a); break;
        case 4: rc = big_block_read_simple(&bb, r0, n, &sa, NULL); break;
        case 5: case 13: rc = big_block_flush(&bb); break;
        case 6: rc = big_block_close(&bb); open_ = 0; break;
        case 7: rc = big_block_grow(&bb, 2, g); break;
        case 8: rc = big_file_create_records(&bf, &rt, "w+", L.N, L.fs); break;
        case 9: rc = big_file_create_records(&bf, &rt, "a+", 2, g); break;
        case 10: rc = big_file_write_records(&bf, &rt, r0, n, rec); break;
        case 11: rc = big_file_read_records(&bf, &rt, r0, n, rec); break;
        case 12: { char q[100]; sprintf(q, "%s/x/y/z", dir); rc = big_file_create(&f2, q); if(rc == 0) big_file_close(&f2); break; }
    }
    int c = count; target = 0;
    int was = hit[0] != 0;
    const char * msg = big_file_get_error_message();
    if(was && rc == 0) fail("success is returned although %s failed (call %d)", hit, k);
    if(was && (!msg || !*msg)) fail("no error message although %s failed (call %d)", hit, k);
    if(!was && rc != 0) fail("failure %d (%s) although nothing failed", rc, msg ? msg : "no message");
    if(op == 4 && rc == 0) { free(sa.data); }
    if(handles != 0) fail("%ld files are left open (%s failed)", handles, was ? hit : "nothing");
    if(open_) { int r2 = big_block_close(&bb); if(r2 != 0 && !was) fail("close fails"); if(handles != 0) fail("%ld files are left open after close", handles); }
    if(big_file_get_error_message()) big_file_set_error_message(NULL);
    on = 0;
    if(live != 0) fail("%ld allocations are %s (%s failed, call %d)", live < 0 ? -live : live, live > 0 ? "not released" : "released twice", was ? hit : "nothing", k);
    if(op == 2 || op == 3 || op == 13) arr_free(&A);
    if(op >= 8 && op <= 11) { big_record_type_clear(&rt); free(rec); }
    *reported = rc;
    count = c;
    return was;
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    scratch(dir, sizeof dir);
    if(0 != big_file_open(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    int op = 0;
    while(more()) {
        sprintf(bt, "%s%s", mark(), PICK(ANY));
        lay_pick(&L, bt); if(L.N == 0) { L.N = 1; L.fs[0] = 4; L.size = 4; }
        na = below(3) ? below(4) : below(30);
        if(L.size == 0) continue;
        int64_t r0 = range(0, L.size - 1), n = range(1, L.size - r0);
        big_file_set_buffer_size((L.w > 8 ? L.w : 8) * (1 + below(4)) + below(L.w));
        op = (op + 1) % 15;
        char ls[300]; lay_str(&L, ls);
        int k = 0, rc;
        for(k = 0; k < 400; k ++) {
            shortly = below(2);
            newcase("%s of block %s with %d attributes, rows %ld + %ld: call %d fails", OPS[op], ls, na, (long) r0, (long) n, k);
            make();
            uint64_t keep = rng_s;
            int was = run(op, k, r0, n, &rc);
            if(k > 0 && !was && count < k) break;
            if(k > 12 && below(3)) k += below(5);
        }
    }
    rmtree(dir);
    done(0);
}
