/* P23: the division of ranks into segments and groups */
#include "coll.h"
#include "mp-mpiu.h"
typedef struct { int Ngroup, Nseg, gid, seg, s0, s1, isl, gl, sl, grank, gsize, srank, ssize, off; long tot, moff; } F;
int main(int argc, char ** argv)
{
    mpi_start(argc, argv);
    while(all_more()) {
        size_t s1[64], s2[64], all1[64]; int style = below(6), two = below(4) == 0;
        for(int r = 0; r < NP; r ++) { s1[r] = style == 0 ? 0 : style == 1 ? below(2) : style == 2 ? below(3) * below(100) : style == 3 ? rnd() >> (8 + below(56)) : below(12); s2[r] = below(3) ? below(30) : 0; }
        if(below(4) == 0) { int k = range(0, NP); for(int r = k; r < NP; r ++) s1[r] = 0; }
        if(below(6) == 0) for(int r = 0; r < NP; r ++) s1[r] = 7;
        /* sizes that agree in some of their bytes */
        if(below(5) == 0) { int sh = below(56); uint64_t lo = rnd() >> 8; for(int r = 0; r < NP; r ++) s1[r] = (lo & ~(0xffull << sh) & 0xffffffffffffffull >> 5) | (below(4) << sh & 0xffffffffffffffull >> 5); style = 3; }
        size_t avg = below(3) == 0 ? 0 : style == 3 ? rnd() >> (8 + below(56)) : below(40);
        int ng = below(8) ? range(1, NP + 3) : 1000000 * range(1, 2000);
        char ls[800]; int n = 0; for(int r = 0; r < NP; r ++) n += snprintf(ls + n, sizeof ls - n, two ? "%zu/%zu " : "%zu ", s1[r], s2[r]);
        newcase("%d ranks hold [%s], %zu per segment, %d groups", NP, ls, avg, ng);
        F f[64]; memset(f, 0, sizeof f);
        size_t mo = 99;
        memset(all1, 0x7f, sizeof all1);
        size_t tot = MPIU_Segmenter_collect_sizes(s1[RANK], all1, &mo, MPI_COMM_WORLD);
        size_t want = 0, wo = 0; for(int r = 0; r < NP; r ++) { if(r == RANK) wo = want; want += s1[r]; CHECK(all1[r] == s1[r], "rank %d: size %d is collected as %zu", RANK, r, all1[r]); }
        CHECK(tot == want && mo == wo, "rank %d: total %zu and offset %zu instead of %zu and %zu", RANK, tot, mo, want, wo);
        MPIU_Segmenter S; memset(&S, 0x77, sizeof S);
        MPIU_Segmenter_init(&S, s1, two ? s2 : NULL, avg, ng, MPI_COMM_WORLD);
        F m; memset(&m, 0, sizeof m);
        m.Ngroup = S.Ngroup; m.Nseg = S.Nsegments; m.gid = S.GroupID; m.seg = S.ThisSegment; m.s0 = S.segment_start; m.s1 = S.segment_end; m.isl = S.is_group_leader; m.gl = S.group_leader_rank; m.sl = S.segment_leader_rank;
        MPI_Comm_rank(S.Group, &m.grank); MPI_Comm_size(S.Group, &m.gsize); MPI_Comm_rank(S.Segment, &m.srank); MPI_Comm_size(S.Segment, &m.ssize);
        MPI_Allgather(&m, sizeof m, MPI_BYTE, f, sizeof m, MPI_BYTE, MPI_COMM_WORLD);
        int last = -1, lastg = 0, maxs = -1;
        for(int r = 0; r < NP; r ++) {
            int has = s1[r] || (two && s2[r]);
            CHECK(f[r].Nseg == f[0].Nseg && f[r].Ngroup == ng, "rank %d counts %d segments and %d groups", r, f[r].Nseg, f[r].Ngroup);
            if(!has) {
                CHECK(f[r].seg < 0 || f[r].seg >= f[r].Nseg, "rank %d has no data but segment %d", r, f[r].seg);
                CHECK(f[r].gid < 0 || f[r].gid >= ng, "rank %d has no data but is in group %d", r, f[r].gid);
                continue;
            }
            CHECK(f[r].seg >= 0 && f[r].seg < f[r].Nseg, "rank %d has segment %d of %d", r, f[r].seg, f[r].Nseg);
            CHECK(f[r].seg == last || f[r].seg == last + 1, "segment %d of rank %d follows %d", f[r].seg, r, last);
            last = maxs = f[r].seg;
            CHECK(f[r].gid >= lastg && f[r].gid < ng, "group %d of rank %d follows %d", f[r].gid, r, lastg); lastg = f[r].gid;
            CHECK(f[r].s0 <= f[r].seg && f[r].seg < f[r].s1, "rank %d: segment %d is not among its group's segments %d..%d", r, f[r].seg, f[r].s0, f[r].s1);
        }
        for(int r = 0; r < NP; r ++) for(int q = 0; q < NP; q ++) {
            int has = (s1[r] || (two && s2[r])) && (s1[q] || (two && s2[q])); if(!has) continue;
            if(f[r].seg == f[q].seg) CHECK(f[r].gid == f[q].gid, "segment %d is in two groups", f[r].seg);
            if(f[r].gid == f[q].gid) CHECK(f[r].s0 == f[q].s0 && f[r].s1 == f[q].s1, "group %d has two ranges", f[r].gid);
            else CHECK(f[r].s1 <= f[q].s0 || f[q].s1 <= f[r].s0, "groups %d and %d share segments", f[r].gid, f[q].gid);
        }
        for(int s = 0; s <= maxs; s ++) {
            /* processed once: by one group, where the members of the segment are all in */
            int g = -1; for(int r = 0; r < NP; r ++) if((s1[r] || (two && s2[r])) && f[r].s0 <= s && s < f[r].s1) { CHECK(g < 0 || g == f[r].gid, "segment %d is processed by groups %d and %d", s, g, f[r].gid); g = f[r].gid; }
            CHECK(g >= 0, "segment %d is processed by nobody", s);
            int cnt = 0, least = -1, at = 0; for(int r = 0; r < NP; r ++) if(f[r].seg == s) { if(least < 0 || s1[r] < s1[least]) { least = r; at = cnt; } cnt ++; }
            int k = 0; for(int r = 0; r < NP; r ++) if(f[r].seg == s) {
                CHECK(f[r].srank == k && f[r].ssize == cnt, "rank %d is %d of %d in segment %d instead of %d of %d", r, f[r].srank, f[r].ssize, s, k, cnt); k ++;
                CHECK(f[r].sl == at, "rank %d: the leader of segment %d is member %d instead of member %d (rank %d)", r, s, f[r].sl, at, least);
            }
        }
        for(int r = 0; r < NP; r ++) {
            int most = -1, at = 0, cnt = 0; for(int q = 0; q < NP; q ++) if(f[q].gid == f[r].gid) { if(most < 0 || s1[q] > s1[most]) { most = q; at = cnt; } cnt ++; }
            CHECK(f[r].gl == at && !!f[r].isl == (most == r), "rank %d: the leader of group %d is member %d (%d) instead of %d", r, f[r].gid, f[r].gl, f[r].isl, at);
        }
        MPIU_Segmenter_destroy(&S);
    }
    mpi_end();
}
