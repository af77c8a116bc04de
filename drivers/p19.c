/* P19: damaged headers and attribute files */
#include "model.h"
static char dir[64], blk[100];
static const char * DT[] = {"<i4", ">f8", "=u8", "|S1", "<c16", "<S16", ">a1", "i4", "<f999", "<i0", "<i-4", "<x4", "<", "", "<i", "<f8extraextraextra", "<i4 ", "|", ">b1", "<a4", "<f17", "<i1234567", "\x80\xff\x01", "<S99999999999999999999", "<b1", "i8"};
static const char * NB[] = {"0", "1", "2", "3", "-1", "7", "2147483647", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "x", "", "0x10", "1000000", "65536", "12", "1e3", "+5", " 3"};
static char buf[70000]; static int bl;
static void add(const char * f, ...) { va_list va; va_start(va, f); if(bl < 60000) bl += vsnprintf(buf + bl, sizeof buf - bl, f, va); va_end(va); }
static void header(int nfile_sane)
{
    static const char * sep[] = {": ", ":", " : ", ":\n", " "};
    int good = below(3);
    add("DTYPE%s%s\n", good ? ": " : PICK(sep), good ? "<i4" : PICK(DT));
    add("NMEMB%s%s\n", good ? ": " : PICK(sep), good == 1 || below(2) ? "1" : PICK(NB));
    int n = below(6);
    /* a huge file count allocates the tables; keep it below what calloc can serve lazily */
    const char * nn = PICK(NB);
    if(below(3)) add("NFILE%s%d\n", ": ", n); else add("NFILE: %s\n", nn);
    for(int i = 0; i < n; i ++) {
        int id = below(5) ? i : below(4) ? (int) below(8) : -(int) below(4);
        if(below(12) == 0) add("%s: ", PICK(NB)); else add("%06X: ", id);
        if(below(3)) add("%d : %u : %u\n", (int) below(100), (unsigned) rnd(), (unsigned) below(65536));
        else add("%s : %s : %s\n", PICK(NB), PICK(NB), PICK(NB));
        if(below(30) == 0) break;
    }
}
static void v2(void)
{
    int n = below(5);
    for(int k = 0; k < n; k ++) {
        const char * dt = below(2) ? DT[below(7)] : PICK(DT);
        int w = atoi(*dt && strchr("<>=|", *dt) ? (dt[1] ? dt + 2 : dt + 1) : *dt ? dt + 1 : dt); if(w < 0 || w > 40) w = 3;
        int m = below(4) ? below(5) : below(60);
        static const char * nm[] = {"a", "b", "name", "#HUMANE", "", "a", "x.y", "-", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"};
        add("%s%s%s ", below(20) ? "" : " \t", PICK(nm), below(6) ? "" : " ");
        if(below(20)) add("%s ", dt);
        if(below(12)) add("%d%s", m, below(15) ? " " : "\t\t "); else add("%s ", PICK(NB));
        int hx = m * w * 2 + (below(8) == 0 ? range(-3, 3) : 0);
        for(int i = 0; i < hx; i ++) add("%c", below(200) == 0 ? (int) (1 + below(255)) : "0123456789ABCDEFabcdef"[below(22)]);
        add("%s", below(8) ? " #HUMANE [ x ]\n" : below(2) ? "\n" : below(2) ? "" : " #HUMANE [ \n \n");
    }
}
static void put4(int v) { memcpy(buf + bl, &v, 4); bl += 4; }
static void v1(void)
{
    int n = below(5);
    for(int k = 0; k < n; k ++) {
        static const int odd[] = {0, 1, 2, -1, 2147483647, (int) 0x80000000, 1000000, 4096, 65536, 17, 1 << 30, 300};
        char dt[9] = {0}; strncpy(dt, below(2) ? DT[below(7)] : PICK(DT), 8);
        int w = strlen(dt) > 2 ? atoi(dt + 2) : 0; if(w < 0 || w > 40) w = 3;
        int m = below(5), l = 1 + below(6);
        put4(below(6) ? m : PICK(odd)); put4(below(6) ? l : PICK(odd));
        memcpy(buf + bl, dt, 8); bl += 8;
        for(int i = 0; i < l; i ++) buf[bl++] = below(20) ? 'a' + below(4) : (char) rnd();
        for(int i = 0; i < m * w; i ++) buf[bl++] = rnd();
        if(bl > 60000) break;
    }
}
static void mess(void)
{
    if(bl == 0) return;
    int m = below(10);
    if(m < 4) return;
    int k = 1 + below(m == 9 ? 40 : 3);
    while(k --) {
        int at = below(bl);
        switch(below(6)) {
            case 0: bl = at; if(bl == 0) return; break;
            case 1: buf[at] = rnd(); break;
            case 2: buf[at] = 0; break;
            case 3: buf[at] = "\n\t :#0-"[below(7)]; break;
            case 4: if(bl < 60000) { int l = 1 + below(9); if(at + l > bl) l = bl - at; memmove(buf + at + l, buf + at, bl - at); bl += l; } break;
            case 5: { int l = 1 + below(9); if(at + l > bl) l = bl - at; memmove(buf + at, buf + at + l, bl - at - l); bl -= l; if(!bl) return; } break;
        }
    }
}
static void hex(char * out, int max) { int o = 0; for(int i = 0; i < bl && o < max - 5; i ++) { unsigned char c = buf[i]; if(c == '\n') o += sprintf(out + o, "\\n"); else if(c >= 32 && c < 127) out[o++] = c; else o += sprintf(out + o, "\\x%02x", c); } out[o] = 0; }
/* well-formed but for one thing that cannot describe a block */
static const char * flaw(void)
{
    static char w[100];
    int n = 1 + below(5), bad = below(n), k = below(9), id[8]; long sz[8];
    const char * dt = "<i4"; int nm = 1 + below(3), nf = n, lines = n;
    for(int i = 0; i < n; i ++) { id[i] = i; sz[i] = below(50); }
    switch(k) {
        case 0: id[bad] = n; sprintf(w, "file number %d of %d", n, n); break;
        case 1: id[bad] = n + 1 + below(below(2) ? 5 : 1000000); sprintf(w, "file number %d of %d", id[bad], n); break;
        case 2: id[bad] = -1 - (int) below(below(2) ? 5 : 1000000000); sprintf(w, "file number %d of %d", id[bad], n); break;
        case 3: sz[bad] = -1 - (long) below(100); sprintf(w, "file size %ld", sz[bad]); break;
        case 4: nm = -1 - (int) below(5); sprintf(w, "%d members", nm); break;
        case 5: nf = -1 - (int) below(5); sprintf(w, "%d files", nf); break;
        case 6: lines = bad; sprintf(w, "%d rows for %d files", lines, n); break;
        case 7: { static const char * BT[] = {"<x4", "<i0", "<f17", "<S99", "i4", "<", "<i-4", "?i4", "<\x01" "4"}; dt = PICK(BT); if(!strcmp(dt, "i4")) dt = "i44"; sprintf(w, "type %s", dt); break; }
        case 8: if(n < 2) { n = nf = lines = 2; id[1] = 1; } sz[0] = PTRDIFF_MAX - (long) below(3); sz[n - 1] = 4 + below(100); if(n > 2) sz[1] = below(2) ? PTRDIFF_MAX : 0; sprintf(w, "the sizes overflow"); break;
    }
    add("DTYPE: %s\nNMEMB: %d\nNFILE: %d\n", dt, nm, nf);
    for(int i = 0; i < lines; i ++) add("%06X: %ld : %u : %u\n", id[i], sz[i], (unsigned) rnd(), (unsigned) below(65536));
    return w;
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    case_secs = 60;
    scratch(dir, sizeof dir);
    sprintf(blk, "%s/b", dir); mkdir(blk, 0777);
    BigFile bf; if(0 != big_file_open(&bf, dir)) { printf("SETUP-FAILED\n"); return 9; }
    while(more()) {
        char p[200], d[6000]; int dn = 0;
        int what = below(5); const char * bad = NULL;
        for(int f = 0; f < 3; f ++) {
            bl = 0;
            sprintf(p, "%s/%s", blk, f == 0 ? "header" : f == 1 ? "attr-v2" : "attr");
            unlink(p);
            if(f == 0) { if(what == 4) bad = flaw(); else if(what == 0 || what == 3) { header(1); mess(); } else add("DTYPE: <i4\nNMEMB: 1\nNFILE: 1\n000000: 3 : 0 : 0\n"); }
            if(f == 1) { if(what == 1 || (what == 3 && below(2))) { v2(); mess(); } else continue; }
            if(f == 2) { if(what == 2 || (what == 3 && below(2))) { v1(); mess(); } else continue; }
            if(what != 4 && below(100) == 0) { bl = below(200); for(int i = 0; i < bl; i ++) buf[i] = rnd(); }
            /* file counts beyond what tables can be made for: skip the gigabytes */
            if(f == 0) {
                char * q = memmem(buf, bl, "NFILE", 5); buf[bl] = 0;
                if(q) { q += 5; while(*q && !strchr("+-0123456789", *q)) q ++; long v = strtol(q, NULL, 10); if((int) v > 3000000) { bl = 0; add("DTYPE: <i4\nNMEMB: 1\nNFILE: 3000000\n"); } }
            }
            spew(p, buf, bl);
            char h[1800]; hex(h, sizeof h);
            dn += snprintf(d + dn, sizeof d - dn, "%s=<%s> ", f == 0 ? "header" : f == 1 ? "attr-v2" : "attr", h);
        }
        newcase("%s", d);
        BigBlock bb;
        memset(&bb, 0x5a, sizeof bb);
        int rt = big_file_open_block(&bf, &bb, "b");
        CHECK(!(bad && rt == 0), "opens although the header gives %s", bad);
        if(rt != 0) { CHECK(big_file_get_error_message() != NULL, "an error without a message"); continue; }
        CHECK(bb.Nfile >= 0 && bb.nmemb >= 0, "opened with %d files and %d members", bb.Nfile, bb.nmemb);
        CHECK(memchr(bb.dtype, 0, sizeof bb.dtype) != NULL, "the type is not terminated");
        int w = atoi(bb.dtype + 2);
        CHECK(strchr("<>=|", bb.dtype[0]) && strchr("Sbifuc", bb.dtype[1]) && bb.dtype[0] && bb.dtype[1] && w > 0 && w <= 16, "opened with the type '%s'", bb.dtype);
        unsigned __int128 s = 0;
        for(int i = 0; i < bb.Nfile; i ++) {
            CHECK(bb.foffset[i] == (size_t) s && (ptrdiff_t) bb.fsize[i] >= 0, "file %d starts at %zu with %zu rows", i, bb.foffset[i], bb.fsize[i]);
            s += bb.fsize[i];
            CHECK(s <= (unsigned __int128) PTRDIFF_MAX, "the size overflows");
            volatile unsigned c = bb.fchecksum[i]; (void) c;
        }
        CHECK(bb.foffset[bb.Nfile] == (size_t) s && bb.size == (size_t) s, "the size is %zu, the files hold %zu", bb.size, (size_t) s);
        size_t c; BigAttr * l = big_block_list_attrs(&bb, &c);
        for(size_t i = 0; i < c; i ++) {
            CHECK(l[i].nmemb >= 0 && memchr(l[i].dtype, 0, 8), "attribute %zu has %d members", i, l[i].nmemb);
            int iw = atoi(l[i].dtype + 2);
            CHECK(iw >= 0, "attribute %zu has type %s", i, l[i].dtype);
            CHECK(l[i].name[0] && !strpbrk(l[i].name, " \t\n"), "attribute %zu has the name '%s'", i, l[i].name);
            unsigned acc = 0; for(long k = 0; k < (long) iw * l[i].nmemb; k ++) acc += l[i].data[k];
            if(i) CHECK(strcmp(l[i - 1].name, l[i].name) < 0, "attributes are out of order or repeated: %s", l[i].name);
            CHECK(big_block_lookup_attr(&bb, l[i].name) == &l[i], "attribute %s is not found", l[i].name);
            char * v = malloc((long) iw * l[i].nmemb + 1);
            CHECK(0 == big_block_get_attr(&bb, l[i].name, v, l[i].dtype, l[i].nmemb) && 0 == memcmp(v, l[i].data, (long) iw * l[i].nmemb), "attribute %s cannot be read", l[i].name);
            free(v); *(volatile unsigned *) &acc;
        }
        for(int k = 0; k < 3; k ++) { BigBlockPtr ptr; ptrdiff_t r = k == 0 ? 0 : k == 1 ? (ptrdiff_t) bb.size : (ptrdiff_t) below(bb.size + 1); CHECK(0 == big_block_seek(&bb, &ptr, r), "seeking in the opened block fails"); }
        /* what was opened can be saved and opened again */
        if(bb.Nfile < 100) {
            static char nm[200][100]; size_t c0 = c; 
            for(size_t i = 0; i < c && i < 200; i ++) snprintf(nm[i], 100, "%s", l[i].name);
            big_block_set_dirty(&bb, 1); int nf = bb.Nfile; size_t sz = bb.size; char t[8]; memcpy(t, bb.dtype, 8);
            CHECK(0 == big_block_close(&bb), "closing fails");
            CHECK(0 == big_file_open_block(&bf, &bb, "b"), "cannot be opened after saving: %s", big_file_get_error_message());
            CHECK(bb.Nfile == nf && bb.size == sz && !memcmp(t, bb.dtype, 8), "opens differently after saving");
            big_block_list_attrs(&bb, &c);
        }
        big_block_set_dirty(&bb, 0);
        big_block_close(&bb);
    }
    big_file_close(&bf);
    rmtree(dir);
    done(0);
}
