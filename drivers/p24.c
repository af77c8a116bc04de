/* P24: all-to-all, gather and scatter */
#include "coll.h"
#include "mp-mpiu.h"
static unsigned char item(int from, int to, int k, int b) { return from * 31 + to * 17 + k * 7 + b * 3 + 1; }
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    while(all_more()) {
        int kind = below(3);
        int cnt[64][64]; int w = 1 + below(below(2) ? 9 : 40);
        int style = below(4);
        for(int r = 0; r < NP; r ++) for(int q = 0; q < NP; q ++) cnt[r][q] = style == 0 ? 0 : style == 1 ? below(3) == 0 ? below(20) : 0 : style == 2 ? below(4) : range(1, 6);
        if(kind == 0) {
            int pol = below(3), gs = below(2), gr = below(2), gc = gr ? 1 : below(2), total = below(4) == 0;
            /* which of the optional arguments are given may differ from rank to rank, but not the counts */
            int sd[64], rd[64], sc[64], rc[64], ds[65] = {0}, dr[65] = {0};
            newcase("all-to-all, %d ranks, items of %d bytes, policy %d, counts %d %d %d.., %s%s%s", NP, w, pol, cnt[0][0], NP > 1 ? cnt[0][1] : 0, NP > 1 ? cnt[1][0] : 0, gs ? "send displacements " : "", gr ? "receive displacements " : "", total ? "total" : "");
            int p = 0, perm = below(2);
            for(int q = 0; q < NP; q ++) { sc[q] = cnt[RANK][q]; rc[q] = cnt[q][RANK]; ds[q + 1] = ds[q] + sc[q]; dr[q + 1] = dr[q] + rc[q]; }
            int sn = ds[NP], rn = dr[NP];
            uint64_t keep = rng_s; rng_s = lrng;
            if(gs) { p = below(3); for(int i = 0; i < NP; i ++) { int q = perm ? NP - 1 - i : i; sd[q] = p; p += sc[q] + below(3); } sn = p; }
            if(gr) { p = below(3); for(int i = 0; i < NP; i ++) { int q = perm ? i : NP - 1 - i; rd[q] = p; p += rc[q] + below(3); } rn = p; }
            rng_s = keep;
            unsigned char * sb = malloc((size_t) sn * w + 1), * rb = malloc((size_t) rn * w + 1), * ex = malloc((size_t) rn * w + 1), * s0 = malloc((size_t) sn * w + 1);
            memset(sb, 0x11, (size_t) sn * w + 1); memset(rb, 0x99, (size_t) rn * w + 1); memset(ex, 0x99, (size_t) rn * w + 1);
            for(int q = 0; q < NP; q ++) for(int k = 0; k < sc[q]; k ++) for(int b = 0; b < w; b ++) sb[((gs ? sd[q] : ds[q]) + k) * w + b] = item(RANK, q, k, b);
            for(int q = 0; q < NP; q ++) for(int k = 0; k < rc[q]; k ++) for(int b = 0; b < w; b ++) ex[((gr ? rd[q] : dr[q]) + k) * w + b] = item(q, RANK, k, b);
            memcpy(s0, sb, (size_t) sn * w + 1);
            int sc0[64], rc0[64], sd0[64], rd0[64]; memcpy(sc0, sc, sizeof sc); memcpy(rc0, rc, sizeof rc); memcpy(sd0, sd, sizeof sd); memcpy(rd0, rd, sizeof rd);
            MPI_Datatype t; MPI_Type_contiguous(w, MPI_BYTE, &t); MPI_Type_commit(&t);
            /* receiving into wider slots: the item and then room that stays untouched */
            int pad = below(3) == 0 ? 1 + below(9) : 0; MPI_Datatype t2; MPI_Type_create_resized(t, 0, w + pad, &t2); MPI_Type_commit(&t2);
            if(pad) {
                rb = realloc(rb, (size_t) rn * (w + pad) + 1); memset(rb, 0x99, (size_t) rn * (w + pad) + 1); free(ex); ex = malloc((size_t) rn * (w + pad) + 1); memset(ex, 0x99, (size_t) rn * (w + pad) + 1);
                for(int q = 0; q < NP; q ++) for(int k = 0; k < rc[q]; k ++) for(int b = 0; b < w; b ++) ex[((gr ? rd[q] : dr[q]) + k) * (w + pad) + b] = item(q, RANK, k, b);
            }
            if(total) {
                int n = MPIU_Alltoallv(sb, sc, gs ? sd : NULL, t, NULL, gc ? rc : NULL, gr ? rd : NULL, t2, MPI_COMM_WORLD, pol);
                CHECK(n == dr[NP], "rank %d: the total is %d instead of %d", RANK, n, dr[NP]);
            } else {
                int n = MPIU_Alltoallv(sb, sc, gs ? sd : NULL, t, rb, gc ? rc : NULL, gr ? rd : NULL, t2, MPI_COMM_WORLD, pol);
                CHECK(n == 0, "rank %d: returns %d", RANK, n);
                for(int i = 0; i <= rn * (w + pad); i ++) CHECK(rb[i] == ex[i], "rank %d: byte %d of slot %d (%d bytes wider than the item) is %d instead of %d", RANK, i % (w + pad), i / (w + pad), pad, rb[i], ex[i]);
            }
            CHECK(0 == memcmp(sb, s0, (size_t) sn * w + 1), "the send buffer changes");
            CHECK(0 == memcmp(sc, sc0, NP * sizeof(int)) && 0 == memcmp(rc, rc0, NP * sizeof(int)), "the counts change");
            if(gs) CHECK(0 == memcmp(sd, sd0, NP * sizeof(int)), "the send displacements change");
            if(gr) CHECK(0 == memcmp(rd, rd0, NP * sizeof(int)), "the receive displacements change");
            MPI_Type_free(&t); MPI_Type_free(&t2); free(sb); free(rb); free(ex); free(s0);
        } else {
            int root = below(NP), given = below(2), * c = cnt[0]; int off[65] = {0}; for(int q = 0; q < NP; q ++) off[q + 1] = off[q] + c[q];
            char ls[500]; int n = 0; for(int q = 0; q < NP; q ++) n += snprintf(ls + n, sizeof ls - n, "%d ", c[q]);
            newcase("%s, %d ranks, root %d, pieces [%s] of %d bytes, %s buffer", kind == 1 ? "gather" : "scatter", NP, root, ls, w, given ? "given" : "new");
            int tot = -7; int ask = below(2);
            int me = c[RANK]; unsigned char * a = malloc(me * w + 1), * b = malloc(off[NP] * w + 1);
            memset(a, 0x33, me * w + 1); memset(b, 0x44, off[NP] * w + 1);
            if(kind == 1) {
                for(int k = 0; k < me; k ++) for(int i = 0; i < w; i ++) a[k * w + i] = item(RANK, 0, k, i);
                unsigned char * r = MPIU_Gather(MPI_COMM_WORLD, root, a, RANK == root && given ? b : NULL, me, w, ask ? &tot : NULL);
                if(ask) CHECK(tot == (RANK == root ? off[NP] : 0), "rank %d: the total is %d instead of %d", RANK, tot, RANK == root ? off[NP] : 0);
                if(RANK == root) {
                    CHECK(!given || r == b, "the given buffer is not used");
                    for(int q = 0; q < NP; q ++) for(int k = 0; k < c[q]; k ++) for(int i = 0; i < w; i ++) CHECK(r[(off[q] + k) * w + i] == item(q, 0, k, i), "byte %d of item %d of rank %d is %d", i, k, q, r[(off[q] + k) * w + i]);
                    if(given) CHECK(b[off[NP] * w] == 0x44, "written past the end");
                    if(!given) MPIU_Free(r);
                }
            } else {
                for(int q = 0; q < NP; q ++) for(int k = 0; k < c[q]; k ++) for(int i = 0; i < w; i ++) b[(off[q] + k) * w + i] = item(q, 1, k, i);
                unsigned char * r = MPIU_Scatter(MPI_COMM_WORLD, root, RANK == root ? b : NULL, given ? a : NULL, me, w, ask ? &tot : NULL);
                if(ask) CHECK(tot == (RANK == root ? off[NP] : 0), "rank %d: the total is %d instead of %d", RANK, tot, RANK == root ? off[NP] : 0);
                CHECK(!given || r == a, "the given buffer is not used");
                for(int k = 0; k < me; k ++) for(int i = 0; i < w; i ++) CHECK(r[k * w + i] == item(RANK, 1, k, i), "rank %d: byte %d of item %d is %d", RANK, i, k, r[k * w + i]);
                if(given) CHECK(a[me * w] == 0x33, "written past the end"); else MPIU_Free(r);
            }
            free(a); free(b);
        }
    }
    mpi_end();
}
