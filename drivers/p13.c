/* P13: record types */
#include "model.h"
static const char * FK[] = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "S3", "S1", "b1", "i2", "S10"};
#define MF 60
typedef struct { char name[200]; char dt[16]; int nm; } F;
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    while(more()) {
        BigRecordType rt; memset(&rt, 0, sizeof rt);
        static F f[MF]; int nf = 0; char hist[4000]; int hn = 0; hist[0] = 0;
        int ops = below(5) ? range(1, 8) : range(8, 50);
        for(int k = 0; k < ops && nf < MF - 4; k ++) {
            F g; int len = below(20) == 0 ? range(20, 150) : range(1, 8);
            for(int i = 0; i < len; i ++) g.name[i] = 'a' + below(26); g.name[len] = 0;
            sprintf(g.dt, "%s%s", mark(), PICK(FK)); g.nm = below(10) == 0 ? range(5, 300) : range(1, 4);
            int op = below(5), at;
            if(op < 3) at = nf; else if(op == 3 && nf) at = below(nf); else at = nf + below(3);
            if(hn < 3500) hn += snprintf(hist + hn, sizeof hist - hn, "%s %d: %.20s %s x %d;", op < 3 ? "add" : "set", at, g.name, g.dt, g.nm);
            newcase("%s", hist);
            if(op < 3) { int i = big_record_type_add(&rt, g.name, g.dt, g.nm); CHECK(i == nf, "added as field %d instead of %d", i, nf); }
            else big_record_type_set(&rt, at, g.name, g.dt, g.nm);
            for(; nf <= at; nf ++) f[nf].name[0] = 0;
            f[at] = g;
            memset(g.name, 'X', 5); g.dt[0] = 'X';     /* the caller's strings may go away */
            CHECK(rt.nfield == nf, "%d fields instead of %d", rt.nfield, nf);
            for(int i = 0; i < nf; i ++) {
                if(!f[i].name[0]) { CHECK(rt.fields[i].name == NULL, "an undefined field %d has a name", i); continue; }
                CHECK(rt.fields[i].name && !strcmp(rt.fields[i].name, f[i].name) && !strncmp(rt.fields[i].dtype, f[i].dt, 8) && rt.fields[i].nmemb == f[i].nm, "field %d is %s %.8s x %d instead of %s %s x %d", i, rt.fields[i].name, rt.fields[i].dtype, rt.fields[i].nmemb, f[i].name, f[i].dt, f[i].nm);
            }
        }
        for(int i = 0; i < nf; i ++) if(!f[i].name[0]) {
            sprintf(f[i].name, "fill%d", i); strcpy(f[i].dt, "f8"); f[i].nm = 1 + below(2);
            big_record_type_set(&rt, i, f[i].name, f[i].dt, f[i].nm);
        }
        big_record_type_complete(&rt);
        int off[MF + 1]; off[0] = 0;
        for(int i = 0; i < nf; i ++) {
            off[i + 1] = off[i] + t_width(f[i].dt) * f[i].nm;
            CHECK(rt.fields[i].offset == off[i], "field %d is at %d instead of %d", i, (int) rt.fields[i].offset, off[i]);
            CHECK(rt.fields[i].elsize == t_width(f[i].dt), "items of field %d have %d bytes", i, (int) rt.fields[i].elsize);
        }
        CHECK(rt.itemsize == off[nf], "records have %d bytes instead of %d", (int) rt.itemsize, off[nf]);
        int n = range(1, 6), w = off[nf];
        char * buf = malloc(n * w), * exp = malloc(n * w);
        for(int i = 0; i < n * w; i ++) exp[i] = buf[i] = rnd();
        for(int k = 0; k < 12; k ++) {
            int i = below(n), c = below(nf), fw = off[c + 1] - off[c];
            char * d = malloc(fw);
            if(below(2)) {
                for(int j = 0; j < fw; j ++) d[j] = rnd();
                newcase("%s store field %d of record %d of %d", hist, c, i, n);
                big_record_set(&rt, buf, i, c, d);
                memcpy(exp + i * w + off[c], d, fw);
                CHECK(0 == memcmp(exp, buf, n * w), "storing changes other bytes");
            }
            newcase("%s fetch field %d of record %d of %d", hist, c, i, n);
            memset(d, 0, fw);
            big_record_get(&rt, buf, i, c, d);
            CHECK(0 == memcmp(d, exp + i * w + off[c], fw), "other bytes are fetched");
            CHECK(0 == memcmp(exp, buf, n * w), "fetching changes the records");
            free(d);
        }
        for(int c = 0; c < nf; c ++) {
            BigArray a; newcase("%s view field %d of %d records", hist, c, n);
            CHECK(0 == big_record_view_field(&rt, c, &a, n, buf), "view fails");
            int tw = t_width(f[c].dt);
            CHECK(a.ndim == 2 && a.dims[0] == n && a.dims[1] == f[c].nm && a.size == (size_t) n * f[c].nm, "view of %zu x %zu", a.dims[0], a.dims[1]);
            CHECK(t_width(a.dtype) == tw, "view has type %s", a.dtype);
            BigArrayIter it; big_array_iter_init(&it, &a);
            for(int e = 0; e < n * f[c].nm; e ++) {
                char * q = buf + (e / f[c].nm) * w + off[c] + (e % f[c].nm) * tw;
                CHECK(it.dataptr == q, "item %d of the view is at %td instead of %td", e, (char*) it.dataptr - buf, q - buf);
                big_array_iter_advance(&it);
            }
        }
        free(buf); free(exp);
        big_record_type_clear(&rt);
        CHECK(rt.nfield == 0, "clearing leaves fields");
    }
    done(0);
}
