/* P06: conversions of arrays between all pairs of types, byte orders and layouts */
#include "model.h"
#include "bigfile-internal.h"
static const char * PAIR[] = {"i4", "u4", "i8", "u8", "f4", "f8"};
static const char * SAME[] = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "i1", "u1", "i2", "u2", "S1", "S3", "S7", "S16", "a1", "a5", "f2", "b2", "S12", "f16"};
static void conv(const char * d, void * dp, const char * s, const void * sp)
{
#define G(S, T) if(!strcmp(s, S)) { T v; memcpy(&v, sp, sizeof v);
#define P(D, T) if(!strcmp(d, D)) { T x = v; memcpy(dp, &x, sizeof x); }
#define ALL P("i4", int32_t) P("u4", uint32_t) P("i8", int64_t) P("u8", uint64_t) P("f4", float) P("f8", double) }
    G("i4", int32_t) ALL G("u4", uint32_t) ALL G("i8", int64_t) ALL G("u8", uint64_t) ALL G("f4", float) ALL G("f8", double) ALL G("b1", signed char) ALL
    if(!strcmp(s, "c8")) { float v[2]; memcpy(v, sp, 8); double x[2] = {v[0], v[1]}; memcpy(dp, x, 16); }
    if(!strcmp(s, "c16")) { double v[2]; memcpy(v, sp, 16); float x[2] = {v[0], v[1]}; memcpy(dp, x, 8); }
}
/* a native value whose conversion to d is defined */
static void gen(const char * d, const char * s, char * p)
{
    int w = t_width(s);
    int64_t lo = !strcmp(d, "u4") || !strcmp(d, "u8") ? 0 : !strcmp(d, "i4") ? -2147483647ll : -9000000000000000000ll;
    int64_t hi = !strcmp(d, "i4") ? 2147483647ll : !strcmp(d, "u4") ? 4294967295ll : 9000000000000000000ll;
    if(s[0] == 'f' && w >= 4 && w <= 8) {
        double v;
        if(d[0] == 'f' && below(2)) { v = (double) (int64_t) rnd() * (below(3) ? 1e-9 : below(2) ? 1e10 : 1e-25); }
        else if(d[0] == 'f') v = range(-1000, 1000) / 7.0;
        else {
            v = below(3) == 0 ? range(0, 1000) / 8.0 : (double) lo * 0.99 + (double) ((uint64_t) rnd() >> 11) / 9007199254740992.0 * ((double) hi * 0.99 - (double) lo * 0.99);
            if(below(4) == 0) v = (double) range(-5, 5);
            if(v < lo) v = lo < 0 ? -1.5 : 0.25;
            if(w == 4) v = (float) v * 0.999f;
        }
        if(w == 4) { float f = v; memcpy(p, &f, 4); } else memcpy(p, &v, 8);
    } else if(s[0] == 'c' && w >= 8) {
        for(int k = 0; k < 2; k ++) { double v = range(-100000, 100000) / 3.0 + k; if(w == 8) { float f = v; memcpy(p + 4 * k, &f, 4); } else memcpy(p + 8 * k, &v, 8); }
    } else {
        for(int i = 0; i < w; i ++) p[i] = rnd();
        int m = below(5);
        if(m == 0) memset(p, 0, w);
        if(m == 1) memset(p, 0xff, w);
        if(m == 2) { memset(p, 0, w); p[0] = rnd(); }
        if(m == 3) { memset(p, 0xff, w); p[w - 1] = 0x7f; }
    }
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    while(more()) {
        char s[16], d[16], st[24], dt[24]; int unsupported = 0;
        int what = below(10);
        if(what < 5) { strcpy(s, below(6) ? PICK(PAIR) : "b1"); strcpy(d, PICK(PAIR)); }
        else if(what < 8) { strcpy(s, PICK(SAME)); strcpy(d, s); }
        else if(what < 9) { strcpy(s, below(2) ? "c8" : "c16"); strcpy(d, below(2) ? "c8" : "c16"); }
        else {
            static const char * bad[][2] = {{"S3", "i4"}, {"i4", "S3"}, {"S3", "S4"}, {"c8", "f8"}, {"f8", "c16"}, {"i8", "b1"}, {"a2", "S2"}, {"u8", "f16"}, {"i3", "i4"}, {"i8", "x8"}};
            int k = below(10); strcpy(s, bad[k][0]); strcpy(d, bad[k][1]); unsupported = 1;
        }
        sprintf(st, "%s%s", mark(), s); sprintf(dt, "%s%s", mark(), d);
        int64_t n = below(8) == 0 ? 0 : dict_or(0, 500, below(4) ? range(1, 9) : range(1, 70));
        int nm = 1 + below(3);
        Arr S, D; char a1[300], a2[300];
        arr_make(&S, st, n, nm); arr_make(&D, dt, n, nm);
        arr_str(&S, a1); arr_str(&D, a2);
        int64_t tot = n * nm;
        int64_t cut = below(2) ? tot : range(0, tot);
        newcase("convert %ld + %ld items from %s to %s", (long) cut, (long) (tot - cut), a1, a2);
        int ws = t_width(s), wd = t_width(d);
        char * nat = malloc(tot * ws + 1);
        for(int64_t e = 0; e < tot; e ++) {
            if(strcmp(s, d)) gen(d, s, nat + e * ws); else for(int i = 0; i < ws; i ++) nat[e * ws + i] = rnd();
            memcpy(arr_at(&S, e), nat + e * ws, ws); order(arr_at(&S, e), st);
        }
        char * copy = malloc(S.len + 1); memcpy(copy, S.mem, S.len);
        char * exp = malloc(D.len + 1); memcpy(exp, D.mem, D.len);
        BigArray sa = S.a, da = D.a;
        BigArrayIter i1, i2;
        big_array_iter_init(&i1, &D.a); big_array_iter_init(&i2, &S.a);
        if(unsupported) {
            int rt = _dtype_convert(&i1, &i2, cut);
            CHECK(rt != 0, "an unsupported conversion succeeds");
            CHECK(0 == memcmp(copy, S.mem, S.len), "the source changes");
        } else {
            int64_t done_ = 0;
            for(int part = 0; part < 2; part ++) {
                int64_t k = part ? tot - cut : cut;
                int rt = _dtype_convert(&i1, &i2, k);
                CHECK(rt == 0, "conversion fails: %s", big_file_get_error_message());
                for(int64_t e = done_; e < done_ + k; e ++) {
                    char o[32], q[32];
                    if(0 == strcmp(s, d)) memcpy(o, nat + e * ws, ws);
                    else conv(d, o, s, nat + e * ws);
                    order(o, dt);
                    memcpy(exp + (arr_at(&D, e) - D.mem), o, wd);
                    (void) q;
                }
                done_ += k;
                for(size_t i = 0; i < D.len; i ++) if(exp[i] != D.mem[i]) fail("after %ld items byte %zu of the destination is %d, not %d", (long) done_, i, D.mem[i] & 255, exp[i] & 255);
                CHECK(0 == memcmp(copy, S.mem, S.len), "the source changes");
                if(done_ < tot) CHECK(i1.dataptr == arr_at(&D, done_) && i2.dataptr == arr_at(&S, done_), "an iterator is not at item %ld", (long) done_);
            }
        }
        CHECK(0 == memcmp(&sa, &S.a, sizeof sa) && 0 == memcmp(&da, &D.a, sizeof da), "an array description changes");
        free(nat); free(copy); free(exp); arr_free(&S); arr_free(&D);
    }
    done(0);
}
