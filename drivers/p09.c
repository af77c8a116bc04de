/* P09: attributes against a map */
#include "attrs.h"
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_create(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        BigBlock bb; size_t fs[1] = {1};
        newcase("create");
        CHECK(0 == big_file_create_block(&bf, &bb, "b", "i8", 1, 1, fs), "create fails");
        rclear();
        static char hist[9000]; int hn = 0; hist[0] = 0;
        int ops = below(4) ? range(1, 12) : range(30, 120), many = below(2), since = 0;
        for(int k = 0; k < ops; k ++) {
            char nm[400]; rname(nm);
            if(many) sprintf(nm + (strlen(nm) < 300 ? strlen(nm) : 300), "%d", (int) below(60));
            int op = below(20);
            if(hn > 8000) hn = 0;
            char * h = hist + hn; size_t hr = sizeof hist - hn;
            if(op < 11 && nref < MAXA - 1) {
                if(nref && below(4) == 0) strcpy(nm, ref[below(nref)].name);
                const char * kw = PICK(AK); int num = below(2); if(num) kw = PICK(NUM);
                int n = below(12) == 0 ? range(0, 3000) : below(10) == 0 ? 0 : range(1, 20);
                n = dict_or(0, 400, n);
                char dt[24]; sprintf(dt, "%s%s", mark(), kw);
                hn += snprintf(h, hr, "set %.40s to %d of %s;", nm, n, dt); newcase("%s", hist);
                rset(nm, kw, n, num);
                char * v = malloc(n * t_width(kw) + 1), * c = malloc(n * t_width(kw) + 1);
                rbytes(&ref[nref - 1], dt, v); memcpy(c, v, n * t_width(kw));
                CHECK(0 == big_block_set_attr(&bb, nm, v, dt, n), "set fails: %s", big_file_get_error_message());
                CHECK(0 == memcmp(c, v, n * t_width(kw)), "the caller's data changes");
                free(v); free(c);
                since = 1;
            } else if(op < 14) {
                if(nref && below(3)) strcpy(nm, ref[below(nref)].name);
                int i = rfind(nm);
                hn += snprintf(h, hr, "remove %.40s;", nm); newcase("%s", hist);
                int rt = big_block_remove_attr(&bb, nm);
                CHECK((rt == 0) == (i >= 0), "removing an attribute that is %s returns %d", i >= 0 ? "present" : "absent", rt);
                if(i >= 0) { rdel(i); since = 1; }
            } else if(op < 15) {
                static const char * bad[] = {"", " ", "a b", "a\t", "\nx", "x\ny", " lead", "trail "};
                const char * b = PICK(bad); double d[2] = {1, 2};
                hn += snprintf(h, hr, "set '%s';", b); newcase("%s", hist);
                CHECK(0 != big_block_set_attr(&bb, b, d, "f8", 2), "the name is accepted");
            } else if(op < 16) {
                if(!nref) continue;
                Ref * r = &ref[below(nref)]; int n = r->n + (below(2) && r->n ? -1 : 1 + below(3));
                char * v = malloc(n * 16 + 1); memset(v, 0x33, n * 16 + 1);
                hn += snprintf(h, hr, "get %d instead of %d of %.40s;", n, r->n, r->name); newcase("%s", hist);
                CHECK(0 != big_block_get_attr(&bb, r->name, v, r->kw, n), "a wrong element count is accepted");
                for(int j = 0; j < n * 16 + 1; j ++) CHECK(v[j] == 0x33, "a refused read writes");
                free(v);
            } else if(op < 17) {
                char v[64]; int i = rfind(nm);
                hn += snprintf(h, hr, "look %.40s up;", nm); newcase("%s", hist);
                BigAttr * a = big_block_lookup_attr(&bb, nm);
                CHECK((a != NULL) == (i >= 0), "lookup is wrong");
                if(i < 0) CHECK(0 != big_block_get_attr(&bb, nm, v, "f8", 1), "an absent attribute is read");
            } else {
                hn += snprintf(h, hr, "flush and reopen;"); newcase("%s", hist);
                CHECK(0 == big_block_flush(&bb), "flush fails");
                BigBlock cc; CHECK(0 == big_file_open_block(&bf, &cc, "b"), "open fails: %s", big_file_get_error_message());
                check_all(&cc, since ? "saved after a change" : "saved");
                CHECK(0 == big_block_close(&cc), "close fails");
                since = 0;
            }
            if(ops < 20 || below(6) == 0) check_all(&bb, "now");
        }
        check_all(&bb, "at the end");
        CHECK(0 == big_block_close(&bb), "close fails");
        newcase("%s close and reopen", hist);
        CHECK(0 == big_file_open_block(&bf, &bb, "b"), "open fails: %s", big_file_get_error_message());
        check_all(&bb, "reopened");
        big_block_close(&bb);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
