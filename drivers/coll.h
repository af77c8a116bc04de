/* MPI drivers: all ranks draw the same cases */
#include "model.h"
#include "bigfile-mpi.h"
#include "bigfile-internal.h"
#include <mpi.h>
static int RANK, NP;
static uint64_t lrng;
static uint64_t lrnd(void) { uint64_t z = (lrng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int all_more(void) { int m = more(); MPI_Bcast(&m, 1, MPI_INT, 0, MPI_COMM_WORLD); lrng = rng_s ^ ((uint64_t) RANK * 0x12345671ull); return m; }
static void mpi_start(int argc, char ** argv)
{
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &RANK); MPI_Comm_size(MPI_COMM_WORLD, &NP);
    drv_init(argc, argv);
    rng_s += NP * 7919;
    drv_quiet = RANK != 0;
    case_secs = 40;
    if(RANK == 0) { printf("CASE start %d ranks\n", NP); }
}
static void mpi_end(void) { alarm(30); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); done(0); }
static void mpi_scratch(char * dir, size_t n) { if(RANK == 0) scratch(dir, n); MPI_Bcast(dir, n, MPI_BYTE, 0, MPI_COMM_WORLD); MPI_Barrier(MPI_COMM_WORLD); }
static void sync_(void) { MPI_Barrier(MPI_COMM_WORLD); }
static int agree(int v) { int mn, mx; MPI_Allreduce(&v, &mn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(&v, &mx, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return mn == mx; }
/* description of a block as text, allocated */
static char * describe(BigBlock * b, int sums)
{
    size_t c; BigAttr * l = big_block_list_attrs(b, &c);
    size_t cap = 4096 + b->Nfile * 80 + strlen(b->basename); for(size_t i = 0; i < c; i ++) cap += strlen(l[i].name) + 60 + 2 * l[i].nmemb * t_width(l[i].dtype);
    char * s = malloc(cap), * p = s;
    p += sprintf(p, "%s %s nmemb %d files %d size %zu", b->basename, b->dtype, b->nmemb, b->Nfile, b->size);
    for(int i = 0; i < b->Nfile; i ++) { p += sprintf(p, " [%zu %zu", b->foffset[i], b->fsize[i]); if(sums) p += sprintf(p, " %u", b->fchecksum[i]); p += sprintf(p, "]"); }
    if(b->foffset) p += sprintf(p, " end %zu", b->foffset[b->Nfile]);
    for(size_t i = 0; i < c; i ++) { p += sprintf(p, " %s %s %d ", l[i].name, l[i].dtype, l[i].nmemb); for(int k = 0; k < l[i].nmemb * t_width(l[i].dtype); k ++) p += sprintf(p, "%02x", l[i].data[k] & 255); }
    return s;
}
