/* P10: attribute sets through the disk, and the text they are stored as */
#include "attrs.h"
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf; char p[200];
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    sprintf(p, "%s/b/attr-v2", dir);
    while(more()) {
        BigBlock bb; size_t fs[1] = {1};
        newcase("create");
        CHECK(0 == big_file_create_block(&bf, &bb, "b", "i8", 1, 1, fs), "create fails");
        rclear();
        int na = below(5) ? range(0, 4) : range(5, 70);
        static char hist[9000]; int hn = 0; hist[0] = 0;
        for(int k = 0; k < na; k ++) {
            char nm[400]; rname(nm);
            const char * kw = PICK(AK);
            int n = below(6) == 0 ? range(100, 2000) : below(10) == 0 ? 0 : below(3) ? range(1, 9) : range(1, 140);
            n = dict_or(0, 400, n);
            char dt[24]; sprintf(dt, "%s%s", mark(), kw);
            if(hn < 8500) hn += snprintf(hist + hn, sizeof hist - hn, "set %.30s to %d of %s;", nm, n, dt);
            newcase("%s", hist);
            rset(nm, kw, n, 0);
            char * v = malloc(n * t_width(kw) + 1);
            rbytes(&ref[nref - 1], dt, v);
            CHECK(0 == big_block_set_attr(&bb, nm, v, dt, n), "set fails: %s", big_file_get_error_message());
            free(v);
        }
        check_all(&bb, "before saving");
        newcase("%s save", hist);
        CHECK(0 == big_block_flush(&bb), "flush fails: %s", big_file_get_error_message());
        /* the text: every value byte as two hexadecimal digits */
        size_t gn; char * g = slurp(p, &gn);
        CHECK(g, "there is no attribute file");
        for(int i = 0; i < nref; i ++) {
            Ref * r = &ref[i]; int w = t_width(r->kw);
            size_t cap = strlen(r->name) + r->n * w * 2 + 100;
            char * l = malloc(cap); BigAttr * a = big_block_lookup_attr(&bb, r->name);
            int o = sprintf(l, "%s %s %d ", r->name, a->dtype, r->n);
            for(int j = 0; j < r->n * w; j ++) o += sprintf(l + o, "%02X", (unsigned char) a->data[j]);
            char * at = NULL, * q = g;
            while((q = memmem(q, gn - (q - g), l, o))) { if((q == g || q[-1] == '\n') && (q[o] == ' ' || r->n * w == 0)) { at = q; break; } q ++; }
            CHECK(at, "attribute %.60s (%d of %s) is not in the file as two hexadecimal digits per byte", r->name, r->n, r->kw);
            free(l);
        }
        free(g);
        BigBlock cc;
        CHECK(0 == big_file_open_block(&bf, &cc, "b"), "the block cannot be opened: %s", big_file_get_error_message());
        check_all(&cc, "reopened");
        /* and once more from what was read */
        if(below(2)) {
            double d = 1; rset("zzz", "f8", 1, 1); put_native(ref[nref - 1].raw, "f8", 1);
            CHECK(0 == big_block_set_attr(&cc, "zzz", &d, "=f8", 1), "set fails");
            CHECK(0 == big_block_close(&cc), "close fails");
            CHECK(0 == big_file_open_block(&bf, &cc, "b"), "the block cannot be opened again: %s", big_file_get_error_message());
            check_all(&cc, "saved and reopened twice");
        }
        big_block_close(&cc);
        big_block_close(&bb);
        unlink(p);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
