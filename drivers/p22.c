/* P22: listing directory trees */
#include "model.h"
static char exp[2000][500]; static int nexp;
static char dir[64]; static long budget;
static int cmp(const void * a, const void * b) { return strcmp(*(char**) a, *(char**) b); }
static int cmpe(const void * a, const void * b) { return strcmp(a, b); }
static void plant(const char * rel, int depth, int hidden)
{
    int n = below(depth == 0 ? 7 : 5); if(depth == 0 && below(20) == 0) n = range(20, 120);
    for(int i = 0; i < n && budget > 0; i ++) {
        budget --;
        char c[60], r[400], p[600];
        static const char * odd[] = {"header", "attr", "attr-v2", "000000", "x.y", "b#1", "0", "header2", "\xc3\xa9t\xc3\xa9", "a~", "Z", "z", "_"};
        if(below(3) == 0) strcpy(c, PICK(odd)); else { int l = range(1, 5); for(int k = 0; k < l; k ++) c[k] = "abcABC01-"[below(9)]; c[l] = 0; }
        int h = below(8) == 0; if(h) { char t[60]; sprintf(t, ".%s", c); strcpy(c, t); }
        if(strlen(rel) > 250) continue;
        sprintf(r, "%s%s%s", rel, *rel ? "/" : "", c); sprintf(p, "%s/%s", dir, r);
        if(exists(p)) continue;
        int kind = below(6);
        if(kind < 2) {
            /* a block; what is inside is not listed */
            if(0 != mkdir(p, 0777)) continue;
            char q[900]; sprintf(q, "%s/header", p); spew(q, "DTYPE: <i4\nNMEMB: 1\nNFILE: 0\n", 30);
            if(below(2)) { sprintf(q, "%s/000000", p); spew(q, "", 0); sprintf(q, "%s/attr-v2", p); spew(q, "", 0); }
            if(below(4) == 0) { sprintf(q, "%s/inner", p); mkdir(q, 0777); sprintf(q, "%s/inner/header", p); spew(q, "x", 1); }
            if(!h && !hidden && nexp < 1999) strcpy(exp[nexp++], r);
        } else if(kind == 2) { spew(p, "data", 4); }
        else {
            if(0 != mkdir(p, 0777)) continue;
            if(strcmp(c, "header") || depth > 20) { if(depth < 5 || (depth < 9 && below(2))) plant(r, depth + 1, hidden || h); }
        }
    }
}
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    while(more()) {
        scratch(dir, sizeof dir); nexp = 0; budget = below(8) ? 25 : 250;
        plant("", 0, 0);
        /* a directory that holds an entry called header that can be opened is a block itself */
        qsort(exp, nexp, sizeof exp[0], cmpe);
        for(int i = 0; i < nexp; i ++) {
            /* drop what lies inside something that turned into a block */
            char p[900], t[500]; strcpy(t, exp[i]);
            int drop = 0; char * q;
            while((q = strrchr(t, '/'))) { *q = 0; sprintf(p, "%s/%s/header", dir, t); if(exists(p)) drop = 1; }
            if(drop) { memmove(exp[i], exp[i + 1], (nexp - i - 1) * sizeof exp[0]); nexp --; i --; }
        }
        /* directories which became blocks because of an entry called header */
        static char all[3000][500]; int na = 0; static char st[3000][500]; int ns = 0;
        strcpy(st[ns++], "");
        while(ns) {
            char rel[500]; strcpy(rel, st[--ns]); char p[1100]; sprintf(p, "%s/%s", dir, rel);
            DIR * D = opendir(p); struct dirent * e; if(!D) continue;
            while((e = readdir(D))) {
                if(e->d_name[0] == '.') continue;
                char r[500], hp[1100]; sprintf(r, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
                sprintf(hp, "%s/%s/header", dir, r);
                if(exists(hp)) { if(na < 2999) strcpy(all[na++], r); }
                else { struct stat s2; sprintf(hp, "%s/%s", dir, r); if(stat(hp, &s2) == 0 && S_ISDIR(s2.st_mode) && ns < 2999) strcpy(st[ns++], r); }
            }
            closedir(D);
        }
        qsort(all, na, sizeof all[0], cmpe);
        char d[2000]; int dn = 0; d[0] = 0; for(int i = 0; i < na && dn < 1500; i ++) dn += snprintf(d + dn, sizeof d - dn, "%s ", all[i]);
        newcase("tree with %d blocks: %s", na, d);
        BigFile bf; char base[80]; sprintf(base, "%s%s", dir, below(3) ? "" : "/");
        CHECK(0 == big_file_open(&bf, base), "open fails");
        char ** names = NULL; int n = -7;
        CHECK(0 == big_file_list(&bf, &names, &n), "list fails");
        CHECK(n == na, "%d blocks are listed instead of %d", n, na);
        qsort(names, n, sizeof(char*), cmp);
        for(int i = 0; i < n; i ++) { CHECK(!strcmp(names[i], all[i]), "'%s' is listed, expected '%s'", names[i], all[i]); free(names[i]); }
        free(names);
        big_file_close(&bf);
        rmtree(dir);
    }
    done(0);
}
