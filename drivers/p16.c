/* P16: every rank returns the same, whatever fails on whichever rank */
#include "coll.h"
#include "faults.h"
static const char * OPS[] = {"create file", "open file", "create block", "open block", "write", "read", "flush", "grow", "close", "create records", "append records", "write records", "read records", "write an unsupported type", "read into an unsupported type", "write beyond the end", "open a missing block", "read with a small buffer on some ranks", "create a block with a bad name", "grow and flush", "create block with a bad type"};
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    char dir[64]; mpi_scratch(dir, sizeof dir);
    BigFile bf;
    if(0 != big_file_mpi_create(&bf, dir, MPI_COMM_WORLD)) fail("create fails");
    int op = 0;
    case_secs = 20;
    while(all_more()) {
        char bt[16]; Lay L; char ls[300];
        sprintf(bt, "%s%s", mark(), PICK(ANY)); lay_pick(&L, bt); if(L.N == 0 || L.size == 0) { L.N = 2; L.fs[0] = 2; L.fs[1] = 3; L.size = 5; }
        lay_str(&L, ls);
        op = (op + 1) % (int) (sizeof OPS / sizeof *OPS);
        BigBlock bb; BigRecordType rt; memset(&rt, 0, sizeof rt); char * rec = NULL; Arr A; BigFile f2; BigBlockPtr ptr; memset(&A, 0, sizeof A);
        int64_t part[64], off[65]; off[0] = 0; int64_t left = L.size;
        for(int r = 0; r < NP; r ++) { part[r] = below(3) ? range(0, left) : 0; if(op == 15) part[r] = range(0, L.size); left -= part[r]; off[r + 1] = off[r] + part[r]; }
        if(op == 15) part[below(NP)] = L.size + 1;
        int hasdata = 0; for(int r = 0; r < NP; r ++) hasdata |= part[r] > 0;
        int64_t n = part[RANK];
        big_file_set_buffer_size(L.w * (1 + below(4)) + below(L.w));
        big_file_mpi_set_aggregated_threshold(below(3) ? below(10) : 1 << 20); int conc = range(0, NP + 1);
        /* which ranks fail, and where */
        int bad[64], any = 0, where[64];
        for(int r = 0; r < NP; r ++) { bad[r] = below(3) == 0; where[r] = below(3) ? 1 + below(6) : 1 + below(40); }
        if(below(4) == 0) memset(bad, 0, sizeof bad); else if(below(2)) { memset(bad, 0, sizeof bad); bad[below(NP)] = 1; }
        char bs[400]; int bn = 0; bs[0] = 0; for(int r = 0; r < NP; r ++) if(bad[r]) bn += snprintf(bs + bn, sizeof bs - bn, "rank %d at call %d; ", r, where[r]);
        newcase("%s, %d ranks, %s, concurrency %d; %s", OPS[op], NP, ls, conc, bs);
        on = 0;
        if(op != 0 && op != 1 && op != 9 && op != 16 && op != 18 && op != 20) {
            CHECK(0 == _big_file_mpi_create_block(&bf, &bb, "d/b", bt, L.nm, L.N, L.fs, MPI_COMM_WORLD), "setup: create");
            if(op == 5 || op == 14 || op == 17 || op == 12 || op == 11) {
                /* something to read */
                char p[300]; if(RANK == 0) for(int f = 0; f < L.N; f ++) { char * z = calloc(L.fs[f] + 1, L.w); fpath(p, dir, "d/b", f); spew(p, z, L.fs[f] * L.w); free(z); }
                sync_();
            }
            if(op == 2 || op == 3 || op >= 9 && op <= 12) CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "setup: close");
        }
        if(op >= 9 && op <= 12) {
            big_record_type_add(&rt, "d/b", bt, L.nm); if(op == 9 || op == 10) { if(op == 10) { CHECK(0 == _big_file_mpi_create_block(&bf, &bb, "d/c", "f4", 2, L.N, L.fs, MPI_COMM_WORLD), "setup"); CHECK(0 == big_block_mpi_close(&bb, MPI_COMM_WORLD), "setup"); } big_record_type_add(&rt, "d/c", "f4", 2); }
            big_record_type_complete(&rt); rec = calloc(n + 1, rt.itemsize);
        }
        if(op == 4 || op == 5 || op == 6 || op == 13 || op == 14 || op == 15 || op == 17) {
            char t[16]; strcpy(t, bt);
            uint64_t keep = rng_s; rng_s = lrng;
            do { arr_make(&A, t, n, L.nm); if(A.nd == 2 && A.dims[0] == n) break; arr_free(&A); } while(1);
            rng_s = keep;
            arr_fill(&A, off[RANK], 1);
            CHECK(0 == big_block_seek(&bb, &ptr, 0), "setup: seek");
        }
        int forced = 0;                        /* the call must fail whatever is injected */
        if(op == 6) { if(RANK == 0) { int v = 3; big_block_set_attr(&bb, "x", &v, "i4", 1); } CHECK(0 == big_block_mpi_write(&bb, &ptr, &A.a, conc, MPI_COMM_WORLD), "setup: write"); if(RANK == 0) big_block_set_dirty(&bb, 1); }
        if(op == 8 && RANK == 0) big_block_set_dirty(&bb, 1);
        if(op == 13 || op == 14) {
            /* a type nothing is converted to, on one rank that has rows */
            int who = below(NP); if(part[who]) forced = 1;
            if(RANK == who) { strcpy(A.a.dtype, "<i7"); }
            if(!L.size) forced = 0;
        }
        if(op == 15) forced = 1;
        if(op == 16) { forced = 1; }
        if(op == 17) { if(below(NP) == RANK) {} unsigned m = rnd(); if(m >> RANK & 1) big_file_set_buffer_size(L.w > 1 ? L.w - 1 : 1); }
        if(op == 18 || op == 20) forced = 1;
        if(big_file_get_error_message()) big_file_set_error_message(NULL);
        live = 0; handles = 0; count = 0; hit[0] = 0; errf = NULL; memset(H, 0, sizeof H);
        shortly = below(2);
        int use = op < 13;
        target = use && bad[RANK] ? where[RANK] : 0;
        sync_();
        uint64_t keep_ = rng_s; on = 1;
        int rc = -100, open_ = 0; size_t g[3] = {1, 0, 2};
        char nf[200];
        switch(op) {
            case 0: sprintf(nf, "%s/x/y", dir); rc = big_file_mpi_create(&f2, nf, MPI_COMM_WORLD); if(rc == 0) big_file_close(&f2); break;
            case 1: rc = big_file_mpi_open(&f2, dir, MPI_COMM_WORLD); if(rc == 0) big_file_close(&f2); break;
            case 2: rc = _big_file_mpi_create_block(&bf, &bb, "e/f/b", bt, L.nm, L.N, L.fs, MPI_COMM_WORLD); open_ = rc == 0; break;
            case 3: rc = big_file_mpi_open_block(&bf, &bb, "d/b", MPI_COMM_WORLD); open_ = rc == 0; break;
            case 4: case 13: case 15: rc = big_block_mpi_write(&bb, &ptr, &A.a, conc, MPI_COMM_WORLD); open_ = 1; break;
            case 5: case 14: case 17: rc = big_block_mpi_read(&bb, &ptr, &A.a, conc, MPI_COMM_WORLD); open_ = 1; break;
            case 6: rc = big_block_mpi_flush(&bb, MPI_COMM_WORLD); open_ = 1; break;
            case 7: case 19: rc = big_block_mpi_grow(&bb, 3, g, MPI_COMM_WORLD); open_ = 1; break;
            case 8: rc = big_block_mpi_close(&bb, MPI_COMM_WORLD); break;
            case 9: rc = big_file_mpi_create_records(&bf, &rt, "w+", L.N, L.fs, MPI_COMM_WORLD); break;
            case 10: rc = big_file_mpi_create_records(&bf, &rt, "a+", 3, g, MPI_COMM_WORLD); break;
            case 11: rc = big_file_mpi_write_records(&bf, &rt, 0, n, rec, conc, MPI_COMM_WORLD); break;
            case 12: rc = big_file_mpi_read_records(&bf, &rt, 0, n, rec, conc, MPI_COMM_WORLD); break;
            case 16: rc = big_file_mpi_open_block(&bf, &bb, "no/such", MPI_COMM_WORLD); open_ = rc == 0; break;
            case 18: rc = _big_file_mpi_create_block(&bf, &bb, "with blank", bt, L.nm, L.N, L.fs, MPI_COMM_WORLD); open_ = rc == 0; break;
            case 20: rc = _big_file_mpi_create_block(&bf, &bb, "t", "q8", L.nm, L.N, L.fs, MPI_COMM_WORLD); open_ = rc == 0; break;
        }
        int was = hit[0] != 0; target = 0; on = 0; rng_s = keep_;
        int anyfail = was; MPI_Allreduce(MPI_IN_PLACE, &anyfail, 1, MPI_INT, MPI_LOR, MPI_COMM_WORLD);
        int mn, mx; MPI_Allreduce(&rc, &mn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(&rc, &mx, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        char all[64 * 100]; char mine[100]; snprintf(mine, sizeof mine, "%.98s", hit); MPI_Allgather(mine, 100, MPI_BYTE, all, 100, MPI_BYTE, MPI_COMM_WORLD);
        char fs[1000]; int fn = 0; fs[0] = 0; for(int r = 0; r < NP; r ++) if(all[r * 100]) fn += snprintf(fs + fn, sizeof fs - fn, "rank %d: %.60s; ", r, all + r * 100);
        const char * msg = big_file_get_error_message();
        int nomsg = rc != 0 && (!msg || !*msg); int wm = nomsg; MPI_Allreduce(MPI_IN_PLACE, &wm, 1, MPI_INT, MPI_LOR, MPI_COMM_WORLD);
        long hs = handles; MPI_Allreduce(MPI_IN_PLACE, &hs, 1, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
        CHECK(mn == mx, "the ranks return values from %d to %d (failures: %s)", mn, mx, fs);
        CHECK(!(anyfail || forced) || mn != 0, "every rank returns success although something failed: %s", fs);
        CHECK(anyfail || forced || op == 17 || op == 13 || op == 14 || mn == 0, "every rank returns %d although nothing failed (%s)", mn, msg ? msg : "no message");
        CHECK(!wm, "some rank has no error message although the call failed (failures: %s)", fs);
        CHECK(hs == 0, "files are left open (failures: %s)", fs);
        big_file_set_buffer_size(1 << 20);
        if(open_) { if(op == 13 || op == 14 || op == 4 || op == 5) {} rc = big_block_mpi_close(&bb, MPI_COMM_WORLD); CHECK(agree(rc), "the ranks disagree about closing"); CHECK(rc == 0, "closing fails: %s", big_file_get_error_message()); }
        if(A.mem) arr_free(&A);
        if(rec) { big_record_type_clear(&rt); free(rec); }
        if(big_file_get_error_message()) big_file_set_error_message(NULL);
        sync_(); if(RANK == 0) { rmtree(dir); __real_mkdir(dir, 0777); } sync_();
    }
    big_file_mpi_close(&bf, MPI_COMM_WORLD);
    if(RANK == 0) rmtree(dir);
    mpi_end();
}
