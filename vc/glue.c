/* Compositions of functions of the library, verified as one: the property relates the two ends. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "bigfile.h"
#include "bigfile-internal.h"

/* the other process sees nothing of the source but the bytes it is sent */
void vp_another_process(BigBlock * src);

void vp_pack_unpack(BigBlock * dst, BigBlock * src)
{
    size_t bytes = 0;
    void * buf = _big_block_pack(src, &bytes);
    vp_another_process(src);
    _big_block_unpack(dst, buf);
    free(buf);
}
