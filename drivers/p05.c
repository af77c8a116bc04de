/* P05: iterators against an odometer */
#include "drv.h"
#include "bigfile.h"
int main(int argc, char ** argv)
{
    drv_init(argc, argv);
    static const char * types[] = {"f8", "<i4", ">f8", "u4", "|S3", "c16", "S1", "=i8", "b1", ">c8"};
    static const int widths[] = {8, 4, 8, 4, 3, 16, 1, 8, 1, 8};
    while(more()) {
        int ndim = below(10) == 0 ? range(1, 32) : range(1, 6);
        size_t dims[32]; ptrdiff_t st[32];
        int t = below(10);
        ptrdiff_t w = widths[t];
        size_t size = 1;
        for(int d = 0; d < ndim; d ++) {
            dims[d] = below(3) == 0 ? 1 : range(1, ndim > 8 ? 2 : 5);
            if(below(60) == 0 && ndim < 4) dims[d] = dict_or(1, 3000, range(1, 300));
            if(size * dims[d] > 4000) dims[d] = 1;
            size *= dims[d];
        }
        int mode = below(6);
        ptrdiff_t packed[32]; ptrdiff_t acc = w;
        for(int d = ndim - 1; d >= 0; d --) { packed[d] = acc; acc *= dims[d]; }
        char desc[2000]; int n = snprintf(desc, sizeof desc, "type=%s mode=%d dims:strides=", types[t], mode);
        for(int d = 0; d < ndim; d ++) {
            switch(mode) {
                case 0: st[d] = packed[d]; break;                                   /* default */
                case 1: st[d] = packed[d]; break;                                   /* explicit packed */
                case 2: st[d] = packed[d] * (below(2) ? 1 : -1); break;
                case 3: st[d] = range(-3, 3) * w; break;
                case 4: st[d] = packed[d] * (d == (int) below(ndim) ? 2 : 1); break; /* one padded dimension */
                default: st[d] = dict_or(-(1 << 30), 1 << 30, range(-1000, 1000));
            }
            n += snprintf(desc + n, sizeof desc - n, "%zu:%td,", dims[d], st[d]);
        }
        if(mode == 1 && below(2) && ndim > 1) { /* packed in column-major order */
            acc = w; n = snprintf(desc, sizeof desc, "type=%s fortran dims:strides=", types[t]);
            for(int d = 0; d < ndim; d ++) { st[d] = acc; acc *= dims[d]; n += snprintf(desc + n, sizeof desc - n, "%zu:%td,", dims[d], st[d]); }
        }
        newcase("%s", desc);
        static char anchor[16];
        BigArray a; BigArrayIter it;
        memset(&a, 0x5a, sizeof a); memset(&it, 0x5a, sizeof it);
        CHECK(0 == big_array_init(&a, anchor, types[t], ndim, dims, mode == 0 ? NULL : st), "init fails");
        CHECK(a.ndim == ndim && a.size == size && a.data == anchor, "array is %d dimensional with %zu elements, not %zu", a.ndim, a.size, size);
        for(int d = 0; d < ndim; d ++) CHECK(a.dims[d] == dims[d] && a.strides[d] == st[d], "dimension %d has extent %td stride %td, not %zu %td", d, a.dims[d], a.strides[d], dims[d], st[d]);
        BigArray a0 = a;
        big_array_iter_init(&it, &a);
        size_t ix[32] = {0};
        for(size_t k = 0; k < size; k ++) {
            ptrdiff_t off = 0;
            for(int d = 0; d < ndim; d ++) off += (ptrdiff_t) ix[d] * st[d];
            CHECK((uintptr_t) it.dataptr == (uintptr_t) anchor + off, "element %zu is visited at offset %td, not %td", k, (char*) it.dataptr - anchor, off);
            for(int d = ndim - 1; d >= 0; d --) { if(++ ix[d] < dims[d]) break; ix[d] = 0; }
            big_array_iter_advance(&it);
        }
        CHECK(0 == memcmp(&a, &a0, sizeof a), "iteration changes the array");
    }
    done(0);
}
