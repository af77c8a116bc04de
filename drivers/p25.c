/* P25: text of one item */
#include "model.h"
static const char * K[] = {"i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "a1", "b1"};
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    while(more()) {
        const char * k = PICK(K); char dt[24]; sprintf(dt, "%s%s", mark(), k);
        int w = t_width(k);
        char nat[16], item[16];
        if(k[0] == 'f' || k[0] == 'c') {
            int np = k[0] == 'c' ? 2 : 1;
            for(int j = 0; j < np; j ++) {
                double v = below(3) == 0 ? range(-1000, 1000) : below(2) ? range(-1000000, 1000000) / 1024.0 : (double) (int64_t) rnd() * (below(2) ? 1e-30 : 1e15);
                if(w / np == 4) { float f = v; memcpy(nat + 4 * j, &f, 4); } else memcpy(nat + 8 * j, &v, 8);
            }
        } else {
            for(int i = 0; i < w; i ++) nat[i] = rnd();
            int m = below(4);
            if(m == 0) memset(nat, 0, w); if(m == 1) memset(nat, 0xff, w); if(m == 2) { memset(nat, 0, w); nat[0] = 1 + below(100); }
            if(k[0] == 'a') nat[0] = 33 + below(90);
        }
        memcpy(item, nat, w); order(item, dt);
        char hx[40] = ""; for(int i = 0; i < w; i ++) sprintf(hx + 2 * i, "%02x", item[i] & 255);
        newcase("item of %s with bytes %s", dt, hx);
        char exp[200];
        if(!strcmp(k, "i4")) { int32_t v; memcpy(&v, nat, 4); sprintf(exp, "%d", v); }
        if(!strcmp(k, "u4")) { uint32_t v; memcpy(&v, nat, 4); sprintf(exp, "%u", v); }
        if(!strcmp(k, "i8")) { int64_t v; memcpy(&v, nat, 8); sprintf(exp, "%ld", v); }
        if(!strcmp(k, "u8")) { uint64_t v; memcpy(&v, nat, 8); sprintf(exp, "%lu", v); }
        if(!strcmp(k, "f4")) { float v; memcpy(&v, nat, 4); sprintf(exp, "%g", v); }
        if(!strcmp(k, "f8")) { double v; memcpy(&v, nat, 8); sprintf(exp, "%g", v); }
        if(!strcmp(k, "c8")) { float v[2]; memcpy(v, nat, 8); sprintf(exp, "%g+%gI", v[0], v[1]); }
        if(!strcmp(k, "c16")) { double v[2]; memcpy(v, nat, 16); sprintf(exp, "%g+%gI", v[0], v[1]); }
        if(!strcmp(k, "a1")) sprintf(exp, "%c", nat[0]);
        if(!strcmp(k, "b1")) sprintf(exp, "%d", (signed char) nat[0]);
        char * it = malloc(w); memcpy(it, item, w);
        char buf[200]; memset(buf, 0x55, sizeof buf);
        int own = below(4) == 0 && k[0] != 'c';
        const char * fmt = NULL;
        if(own) {
            fmt = !strcmp(k, "i8") ? "<%20ld>" : !strcmp(k, "u8") ? "<%20lu>" : k[0] == 'f' ? "<%.17e>" : k[0] == 'a' ? "<%c>" : !strcmp(k, "u4") ? "<%12u>" : "<%12d>";
            if(!strcmp(k, "i4")) { int32_t v; memcpy(&v, nat, 4); sprintf(exp, fmt, v); }
            if(!strcmp(k, "u4")) { uint32_t v; memcpy(&v, nat, 4); sprintf(exp, fmt, v); }
            if(!strcmp(k, "i8")) { int64_t v; memcpy(&v, nat, 8); sprintf(exp, fmt, v); }
            if(!strcmp(k, "u8")) { uint64_t v; memcpy(&v, nat, 8); sprintf(exp, fmt, v); }
            if(!strcmp(k, "f4")) { float v; memcpy(&v, nat, 4); sprintf(exp, fmt, v); }
            if(!strcmp(k, "f8")) { double v; memcpy(&v, nat, 8); sprintf(exp, fmt, v); }
            if(!strcmp(k, "a1")) sprintf(exp, fmt, nat[0]);
            if(!strcmp(k, "b1")) sprintf(exp, fmt, (signed char) nat[0]);
        }
        big_file_dtype_format(buf, dt, it, fmt);
        CHECK(!strcmp(buf, exp), "formatted as '%s' instead of '%s'", buf, exp);
        CHECK(0 == memcmp(it, item, w), "formatting changes the item");
        /* parsing */
        char text[200], ref[16]; int ok = 1;
        memcpy(ref, nat, w);
        if(k[0] == 'f') { double v = range(-100000, 100000) / 64.0; sprintf(text, "%.17g", v); if(w == 4) { float f = v; memcpy(ref, &f, 4); } else memcpy(ref, &v, 8); }
        else if(k[0] == 'c') {
            double a = range(-100000, 100000) / 64.0, b = range(0, 100000) / 64.0;
            sprintf(text, "%.17g + %.17g I", a, b);
            if(w == 8) { float f[2] = {a, b}; memcpy(ref, f, 8); } else { double f[2] = {a, b}; memcpy(ref, f, 16); }
        }
        else if(k[0] == 'b') ok = 0;
        else sprintf(text, "%s", own ? "" : exp), ok = !own;
        if(ok) {
            newcase("parse '%s' as %s", text, dt);
            memset(it, 0x11, w);
            CHECK(0 == big_file_dtype_parse(text, dt, it, NULL), "parsing fails");
            order(ref, dt);
            CHECK(0 == memcmp(it, ref, w), "parsing stores other bytes");
        }
        if(below(5) == 0) {
            static const char * bad[] = {"x8", "S3", "i2", "b1", "f2", "c4", "u1", "zz", "i16"};
            char bt[24]; sprintf(bt, "%s%s", mark(), PICK(bad));
            newcase("parse '1' as %s", bt);
            char z[32]; memset(z, 0x22, 32);
            CHECK(0 != big_file_dtype_parse("1", bt, z, NULL), "an unsupported type is accepted");
            for(int i = 0; i < 32; i ++) CHECK(z[i] == 0x22, "a refused parse writes");
        }
        free(it);
    }
    done(0);
}
