/* reference map of attributes: native bytes per name */
#include "model.h"
#define MAXA 160
typedef struct { char name[400]; char kw[16]; int n; char * raw; int numeric; } Ref;
static Ref ref[MAXA]; static int nref;
static int rfind(const char * n) { for(int i = 0; i < nref; i ++) if(!strcmp(ref[i].name, n)) return i; return -1; }
static void rdel(int i) { free(ref[i].raw); memmove(&ref[i], &ref[i + 1], (nref - i - 1) * sizeof(Ref)); nref --; }
static void rclear(void) { while(nref) rdel(0); }
static const char * AK[] = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "S1", "S5", "a1", "a7", "b1", "i2", "u2", "u1", "S16"};
static int is_num(const char * k) { for(int i = 0; i < 6; i ++) if(!strcmp(NUM[i], k)) return 1; return 0; }
static void rname(char * b)
{
    static const char * pre[] = {"a", "attr", "Z", "b#", "x.y", "A-", "_", "\xc3\xa9", "zz", "["};
    int m = below(12);
    if(m < 8) sprintf(b, "%s%d", PICK(pre), (int) below(12));
    else if(m < 10) { int l = range(1, 130); for(int i = 0; i < l; i ++) b[i] = 'a' + below(3); b[l] = 0; if(l > 2 && below(2)) sprintf(b + l - 1, "%d", (int) below(3)); }
    else { int l = range(100, 300); memset(b, 'q', l); sprintf(b + l, "%d", (int) below(20)); }
}
/* native bytes of a new value */
static void rset(const char * name, const char * kw, int n, int numeric)
{
    int i = rfind(name), w = t_width(kw);
    if(i >= 0) rdel(i);
    Ref * r = &ref[nref++]; memset(r, 0, sizeof *r);
    strcpy(r->name, name); strcpy(r->kw, kw); r->n = n; r->numeric = numeric && is_num(kw);
    r->raw = malloc(n * w + 1);
    if(r->numeric) { int b = below(40); for(int k = 0; k < n; k ++) put_native(r->raw + k * w, kw, (b + k * 3) % 97); }
    else {
        int m = below(4);
        for(int k = 0; k < n * w; k ++) r->raw[k] = m == 0 ? "hello world #HUMANE [ ]"[k % 23] : m == 1 ? (char) (k * 17 + 3) : (char) rnd();
        if(m == 3 && n * w > 0) memset(r->raw, below(2) ? 0 : 0xff, n * w);
    }
}
static void rbytes(Ref * r, const char * dt, char * out)
{
    int w = t_width(r->kw);
    const char * kw = strchr("<>=|", dt[0]) ? dt + 1 : dt; int wo = t_width(kw);
    for(int k = 0; k < r->n; k ++) {
        if(!strcmp(kw, r->kw)) { memcpy(out + k * w, r->raw + k * w, w); order(out + k * w, dt); }
        else {
            char t[32]; int v = -1;
            for(int c = 0; c < 100; c ++) { put_native(t, r->kw, c); if(!memcmp(t, r->raw + k * w, w)) { v = c; break; } }
            put_val(out + k * wo, dt, v);
        }
    }
}
static int rcmp(const void * a, const void * b) { return strcmp(((Ref*) a)->name, ((Ref*) b)->name); }
static void check_all(BigBlock * bb, const char * when)
{
    size_t c = 12345; BigAttr * l = big_block_list_attrs(bb, &c);
    CHECK(c == (size_t) nref, "%s: %zu attributes instead of %d", when, c, nref);
    qsort(ref, nref, sizeof(Ref), rcmp);
    for(int i = 0; i < nref; i ++) {
        Ref * r = &ref[i]; int w = t_width(r->kw);
        CHECK(!strcmp(l[i].name, r->name), "%s: attribute %d is %.60s instead of %.60s", when, i, l[i].name, r->name);
        CHECK(!strcmp(l[i].dtype + 1, r->kw) && l[i].nmemb == r->n, "%s: attribute %.60s is %d of %s instead of %d of %s", when, r->name, l[i].nmemb, l[i].dtype, r->n, r->kw);
        BigAttr * f = big_block_lookup_attr(bb, r->name);
        CHECK(f && !strcmp(f->name, r->name), "%s: %.60s is not found", when, r->name);
        char dt[24]; char * got, * exp;
        sprintf(dt, "%s%s", mark(), r->numeric && below(2) ? PICK(NUM) : r->kw);
        int wo = t_width(dt); got = malloc(r->n * wo + 1); exp = malloc(r->n * (wo > w ? wo : w) + 1);
        memset(got, 0x77, r->n * wo + 1);
        int rt = big_block_get_attr(bb, r->name, got, dt, r->n);
        CHECK(rt == 0, "%s: %.60s cannot be read as %s: %s", when, r->name, dt, big_file_get_error_message());
        rbytes(r, dt, exp);
        CHECK(0 == memcmp(got, exp, r->n * wo), "%s: %.60s (%d of %s) read as %s has other values", when, r->name, r->n, r->kw, dt);
        CHECK(got[r->n * wo] == 0x77, "%s: reading %.60s writes past the end", when, r->name);
        rbytes(r, l[i].dtype, exp);
        CHECK(0 == memcmp(l[i].data, exp, r->n * w), "%s: the listed bytes of %.60s differ", when, r->name);
        free(got); free(exp);
    }
}
