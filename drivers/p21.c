/* P21: paths of files, and directories made on the way */
#include "model.h"
#include "bigfile-internal.h"
FILE * __real_fopen(const char *, const char *); FILE * __real_fopen64(const char *, const char *);
int __real_mkdir(const char *, mode_t); int __real_stat(const char *, struct stat *);
static char opened[4000][1100]; static int nopened, fake;
static char made[200][1100]; static int nmade, fail_mk, rec, pre_existing[200];
static FILE * w_open(const char * p, const char * m, FILE * (*f)(const char *, const char *))
{
    if(rec && nopened < 4000) snprintf(opened[nopened++], 1100, "%s", p);
    if(rec && fake) return f("/dev/null", "r");
    return f(p, m);
}
FILE * __wrap_fopen(const char * p, const char * m) { return w_open(p, m, __real_fopen); }
FILE * __wrap_fopen64(const char * p, const char * m) { return w_open(p, m, __real_fopen64); }
int __wrap_mkdir(const char * p, mode_t m)
{
    if(!rec) return __real_mkdir(p, m);
    struct stat st;
    pre_existing[nmade] = stat(p, &st) == 0;
    if(nmade < 190) snprintf(made[nmade++], 1100, "%s", p);
    if(nmade == fail_mk) { errno = EACCES; return -1; }
    int r = __real_mkdir(p, m);
    if(r != 0 && errno == ENOENT) fail("the directory '%s' is made before its parent", p);
    return r;
}
static int isdir(const char * p) { struct stat st; return stat(p, &st) == 0 && S_ISDIR(st.st_mode); }
static void comp(char * b) { int l = below(15) == 0 ? range(20, 100) : range(1, 6); for(int i = 0; i < l; i ++) b[i] = "abcxyz._-#0"[below(11)]; b[l] = 0; if(!strcmp(b, ".") || !strcmp(b, "..")) strcpy(b, "q"); }
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    char dir[64]; scratch(dir, sizeof dir);
    while(more()) {
        rec = 0; fail_mk = 0; fake = 0; nopened = nmade = 0;
        int what = below(10);
        if(what < 3) {
            /* paths of single files */
            char b[600] = ""; int depth = range(0, 4);
            if(depth && below(3) == 0) strcpy(b, "/");
            for(int d = 0; d < depth; d ++) { char c[110]; comp(c); strcat(b, c); if(d < depth - 1 || below(3) == 0) strcat(b, "/"); }
            int ids[4] = {-1, -2, -3, 0}; ids[3] = below(2) ? (int) below(5000) : (int) below(0x1000000);
            int a = ids[below(3)], c = ids[3];
            if(below(2)) a = below(2) ? c ^ (1 << below(24)) : c + 1;
            newcase("files %d and %d of '%s'", a, c, b);
            rec = 1; fake = 1;
            int raise = below(2);
            FILE * f1 = _big_file_open_a_file(b, a, "r", raise), * f2 = _big_file_open_a_file(b, c, "r", raise);
            rec = 0;
            CHECK(f1 && f2 && nopened == 2, "%d files are opened", nopened);
            fclose(f1); fclose(f2);
            int id[2] = {a, c};
            for(int k = 0; k < 2; k ++) {
                char e[1200]; int bl = strlen(b);
                sprintf(e, "%s%s", b, bl && b[bl - 1] != '/' ? "/" : "");
                if(id[k] == -1) strcat(e, "header"); else if(id[k] == -2) strcat(e, "attr"); else if(id[k] == -3) strcat(e, "attr-v2"); else sprintf(e + strlen(e), "%06X", id[k]);
                CHECK(!strcmp(e, opened[k]), "file %d is opened as '%s' instead of '%s'", id[k], opened[k], e);
            }
            continue;
        }
        /* directories */
        char root[200], name[600] = ""; int depth = range(1, below(6) ? 4 : 12), abs_ = below(4) == 0;
        sprintf(root, "%s/r%d", dir, (int) below(3));
        if(abs_) { char cwd[100]; if(!getcwd(cwd, 90)) _exit(9); char t[200]; sprintf(t, "%s/%s", cwd, root); strcpy(root, t); }
        mkdir(root, 0777);
        char bfn[260]; sprintf(bfn, "%s%s", root, below(3) == 0 ? "/" : "");
        for(int d = 0; d < depth; d ++) { char c[110]; do comp(c); while(depth > 5 && strlen(c) > 10); if(strlen(name) + strlen(c) > 400) break; strcat(name, c); if(d < depth - 1) { strcat(name, "/"); if(below(12) == 0) strcat(name, "/"); } }
        if(name[strlen(name) - 1] != '/' && below(6) == 0) strcat(name, "/");
        int obstacle = below(5) == 0, inject = !obstacle && below(5) == 0;
        char full[900]; sprintf(full, "%s/%s", root, name);
        if(obstacle) {
            /* a regular file in the way */
            char t[900]; strcpy(t, full); int l = strlen(t); if(t[l - 1] == '/') t[--l] = 0;
            int up = below(depth); while(up --) { char * q = strrchr(t, '/'); if(q && q > t + strlen(root)) *q = 0; }
            while(t[strlen(t) - 1] == '/') t[strlen(t) - 1] = 0;
            char u[900]; strcpy(u, t);
            for(char * q = u + strlen(root) + 1; *q; q ++) if(*q == '/') { *q = 0; mkdir(u, 0777); *q = '/'; }
            if(!isdir(u)) spew(u, "x", 1); else obstacle = 0;
        }
        if(inject) fail_mk = range(1, depth);
        newcase("%s '%s' in '%s'%s, failing mkdir %d", what < 8 ? "create block" : "create file", name, bfn, obstacle ? " with a file in the way" : "", fail_mk);
        int rt; BigFile bf; BigBlock bb; size_t fs[40]; int N = below(5) ? range(0, 3) : range(3, 20); for(int i = 0; i < N; i ++) fs[i] = 1;
        int isfile = what >= 8;
        if(isfile) {
            rec = 1; rt = big_file_create(&bf, full); rec = 0;
        } else {
            if(0 != big_file_open(&bf, bfn)) fail("open fails");
            rec = 1; rt = big_file_create_block(&bf, &bb, name, "i4", 1, N, fs); rec = 0;
        }
        int hit = 0;
        if(fail_mk && nmade >= fail_mk && !isdir(made[fail_mk - 1])) hit = 1;
        CHECK((rt != 0) == (obstacle || hit), "the result is %d although %s", rt, obstacle ? "a regular file is in the way" : hit ? "a directory could not be made" : "nothing is in the way");
        if(rt) CHECK(big_file_get_error_message() != NULL, "no error message");
        if(rt == 0) {
            CHECK(isdir(full), "the directory is missing");
            if(!isfile) {
                char e[1100]; int hd = 0, at = 0, dn = 0, l = strlen(full);
                /* the file's directory, one separator, the name */
                sprintf(full, "%s%s%s", bfn, bfn[strlen(bfn) - 1] == '/' ? "" : "/", name); l = strlen(full);
                const char * sep = full[l - 1] == '/' ? "" : "/";
                for(int k = 0; k < nopened; k ++) {
                    sprintf(e, "%s%sheader", full, sep); if(!strcmp(e, opened[k])) { hd ++; continue; }
                    sprintf(e, "%s%sattr-v2", full, sep); if(!strcmp(e, opened[k])) { at ++; continue; }
                    sprintf(e, "%s%s%06X", full, sep, dn); if(!strcmp(e, opened[k])) { dn ++; continue; }
                    fail("'%s' is opened", opened[k]);
                }
                CHECK(hd && at && dn == N, "header %d times, attributes %d times, %d data files of %d", hd, at, dn, N);
                CHECK(0 == big_block_close(&bb), "close fails");
            }
            /* existing directories are fine */
            if(isfile) { BigFile b2; CHECK(0 == big_file_create(&b2, full), "creating an existing file fails"); big_file_close(&b2); }
            else { BigBlock b2; CHECK(0 == big_file_create_block(&bf, &b2, name, "i4", 1, N, fs), "creating the block again fails"); big_block_close(&b2); }
        }
        if(!isfile || rt == 0) big_file_close(&bf);
        if(obstacle || hit || below(3)) rmtree(root);
    }
    rmtree(dir);
    done(0);
}
