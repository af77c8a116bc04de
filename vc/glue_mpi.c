/* Two processes of a communicator, one after the other: what the first passes to the collective
 * operations is what the second receives.  vp_switch() moves from the first process to the second. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
#include "bigfile-mpi.h"
#include "bigfile-internal.h"

void vp_switch(void);
int big_file_mpi_broadcast_anyerror(int rt, MPI_Comm comm);
int big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm);

int vp_anyerror(int ra, int rb, MPI_Comm comm, int * out)
{
    *out = big_file_mpi_broadcast_anyerror(ra, comm);
    vp_switch();
    return big_file_mpi_broadcast_anyerror(rb, comm);
}
int vp_broadcast(BigBlock * a, BigBlock * b, int root, MPI_Comm comm, int * out)
{
    *out = big_block_mpi_broadcast(a, root, comm);
    vp_switch();
    return big_block_mpi_broadcast(b, root, comm);
}
int vp_file_open(BigFile * a, BigFile * b, const char * na, const char * nb, MPI_Comm comm, int * out)
{
    *out = big_file_mpi_open(a, na, comm);
    vp_switch();
    return big_file_mpi_open(b, nb, comm);
}
int vp_file_create(BigFile * a, BigFile * b, const char * na, const char * nb, MPI_Comm comm, int * out)
{
    *out = big_file_mpi_create(a, na, comm);
    vp_switch();
    return big_file_mpi_create(b, nb, comm);
}
int vp_file_close(BigFile * a, BigFile * b, MPI_Comm comm, int * out)
{
    *out = big_file_mpi_close(a, comm);
    vp_switch();
    return big_file_mpi_close(b, comm);
}
int vp_open_block(BigFile * fa, BigFile * fb, BigBlock * a, BigBlock * b, const char * na, const char * nb, MPI_Comm comm, int * out)
{
    *out = big_file_mpi_open_block(fa, a, na, comm);
    vp_switch();
    return big_file_mpi_open_block(fb, b, nb, comm);
}
int vp_create_blocks(BigFile * fa, BigFile * fb, BigBlock * a, BigBlock * b, const char * na, const char * nb, const char * ta, const char * tb,
    int nmemb, int Nfile, const size_t * za, const size_t * zb, MPI_Comm comm, int * out)
{
    *out = _big_file_mpi_create_block(fa, a, na, ta, nmemb, Nfile, za, comm);
    vp_switch();
    return _big_file_mpi_create_block(fb, b, nb, tb, nmemb, Nfile, zb, comm);
}
int vp_grow(BigBlock * a, BigBlock * b, int n, const size_t * za, const size_t * zb, MPI_Comm comm, int * out)
{
    *out = big_block_mpi_grow(a, n, za, comm);
    vp_switch();
    return big_block_mpi_grow(b, n, zb, comm);
}
int vp_flush(BigBlock * a, BigBlock * b, MPI_Comm comm, int * out)
{
    *out = big_block_mpi_flush(a, comm);
    vp_switch();
    return big_block_mpi_flush(b, comm);
}
int vp_close(BigBlock * a, BigBlock * b, MPI_Comm comm, int * out)
{
    *out = big_block_mpi_close(a, comm);
    vp_switch();
    return big_block_mpi_close(b, comm);
}
