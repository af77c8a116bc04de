#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the list below and confirms each change in a scratch copy"""
import os, sys, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
#include "bigfile.h"
#include "bigfile-internal.h"
#define OK(c) do { if(!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while(0)
'''
MPIPRE = PRE.replace('#include "bigfile.h"', '#include <mpi.h>\n#include "bigfile.h"\n#include "bigfile-mpi.h"\n#include "mp-mpiu.h"')
SEEDS = []
def seed(id, prop, file, edits, needs, breaks, demo, mpi=0, flags='', pre=''):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, mpi=mpi, flags=flags, pre=pre))

seed('p01-start', 'P01', 'src/bigfile.c',
 [('if(bb->size == 0 && offset == 0) {', 'if(offset == 0) {')],
 'the first physical file of the block has no rows and the seek goes to row 0', 'row 0 is mapped to the empty first file instead of the file that holds it',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {0, 3, 2}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 3, fs));
 OK(!big_block_seek(&b, &p, 0)); OK(p.fileid == 1 && p.roffset == 0 && p.aoffset == 0); OK(!big_block_close(&b)); return 0; }''')

seed('p02-bigoffset', 'P02', 'src/bigfile.c',
 [('''        fp = _big_file_open_a_file(bb->basename, ptr->fileid, "r+", 1);
        RAISEIF(fp == NULL,
                ex_open,
                NULL);
        RAISEIF(0 > fseek(fp, ptr->roffset * felsize, SEEK_SET),''', '''        unsigned int where = ptr->roffset * felsize;
        fp = _big_file_open_a_file(bb->basename, ptr->fileid, "r+", 1);
        RAISEIF(fp == NULL,
                ex_open,
                NULL);
        RAISEIF(0 > fseek(fp, where, SEEK_SET),''')],
 'rows more than 4 GiB into a physical file', 'the byte offset is truncated to 32 bits: the rows land at the start of the file',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {700000000}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i8", 1, 1, fs));
 int64_t v[2] = {7, 9}, g[2] = {0, 0}; size_t d[] = {2, 1}; BigArray a; big_array_init(&a, v, "i8", 2, d, NULL);
 OK(!big_block_seek(&b, &p, 600000000)); OK(!big_block_write(&b, &p, &a)); OK(p.aoffset == 600000002);
 FILE * r = fopen("f/b/000000", "r"); OK(!fseek(r, 600000000L * 8, SEEK_SET)); OK(2 == fread(g, 8, 2, r)); OK(g[0] == 7 && g[1] == 9); fclose(r); unlink("f/b/000000"); return 0; }''')

seed('p03-nextfile', 'P03', 'src/bigfile.c',
 [('''        toread -= chunk_size;
        RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
                ex_blockseek,
                NULL);''', '''        toread -= chunk_size;
        ptr->aoffset += chunk_size;
        ptr->roffset += chunk_size;
        if(ptr->roffset == bb->fsize[ptr->fileid] && ptr->fileid + 1 < bb->Nfile) {
            /* on to the next file */
            ptr->fileid ++;
            ptr->roffset = 0;
        }'''), ('ex_insuf:\nex_convert:\nex_blockseek:\nex_open:\nex_eof:\nex_felsize:\n    free(chunkbuf);\nex_malloc:\n    return -1;\n}\n\nint\nbig_block_write', 'ex_insuf:\nex_convert:\nex_open:\nex_eof:\nex_felsize:\n    free(chunkbuf);\nex_malloc:\n    return -1;\n}\n\nint\nbig_block_write')],
 'a read that crosses a physical file without rows', 'the read fails although all rows are there',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {2, 0, 3}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i8", 1, 3, fs));
 int64_t v[5] = {7, 9, 1, 2, 3}, g[5] = {0}; size_t d[] = {5, 1}; BigArray a; big_array_init(&a, v, "i8", 2, d, NULL);
 OK(!big_block_seek(&b, &p, 0)); OK(!big_block_write(&b, &p, &a)); big_array_init(&a, g, "i8", 2, d, NULL);
 OK(!big_block_seek(&b, &p, 0)); OK(!big_block_read(&b, &p, &a)); OK(!memcmp(v, g, sizeof v)); return 0; }''')

seed('p04-roffset', 'P04', 'src/bigfile.c',
 [('''    ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset + toread;''', '''    ptrdiff_t abs = bb->foffset[ptr->fileid] + toread;''')],
 'a read that starts inside a physical file and ends past the block by no more than that offset', 'the read is not refused: it succeeds with fewer rows than the array has',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {4, 6}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i8", 1, 2, fs));
 int64_t v[10] = {7, 9, 1, 2, 3}, g[5] = {0}; size_t d[] = {10, 1}; BigArray a; big_array_init(&a, v, "i8", 2, d, NULL);
 OK(!big_block_seek(&b, &p, 0)); OK(!big_block_write(&b, &p, &a)); d[0] = 5; big_array_init(&a, g, "i8", 2, d, NULL);
 OK(!big_block_seek(&b, &p, 7)); OK(big_block_read(&b, &p, &a)); OK(g[0] == 0 && p.aoffset == 7); return 0; }''')

seed('p05-unitdims', 'P05', 'src/bigfile.c',
 [('        if(array->strides[i] != stride_contiguous) {', '        /* the stride of a dimension of extent one does not matter */\n        if(array->dims[i] != 1 && array->strides[i] != stride_contiguous) {')],
 'the last dimension has extent one and a stride that is not the item size', 'the array is taken for contiguous and stepped with the wrong stride',
 r'''int main() { BigArray a; BigArrayIter it; int32_t v[12]; size_t d[] = {3, 1}; ptrdiff_t s[] = {4, 16}; big_array_init(&a, v, "i4", 2, d, s); big_array_iter_init(&it, &a);
 for(int i = 0; i < 3; i ++) { OK(it.dataptr == (void*) &v[i]); big_array_iter_advance(&it); } return 0; }''')

seed('p06-unsigned', 'P06', 'src/bigfile.c',
 [('CAST("f8", double, "u4", uint32_t);', 'CAST("f8", double, "u4", int32_t);')],
 'values above 2^31', 'unsigned 32 bit values become negative when converted to double',
 r'''int main() { BigFile f; BigBlock b; uint32_t v = 4000000000u; double g = 0; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", NULL, 0, 0, NULL));
 OK(!big_block_set_attr(&b, "a", &v, "u4", 1)); OK(!big_block_get_attr(&b, "a", &g, "f8", 1)); OK(g == 4000000000.0); return 0; }''')

seed('p07-growsum', 'P07', 'src/bigfile.c',
 [('''    for(i = 0; i < bb->Nfile; i ++) {
        fsize[i] = bb->fsize[i];
        fchecksum[i] = bb->fchecksum[i];
    }
''', '''    memcpy(fsize, bb->fsize, bb->Nfile * sizeof(fsize[0]));
    memcpy(fchecksum, bb->fchecksum, bb->Nfile);
''')],
 'a block that was written is grown, then saved', 'the checksums of the old files are lost (the table is copied with the wrong size)',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {2, 3}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 2, fs));
 int32_t v[5] = {0x01020304, 2, 3, 4, 0x05060708}; size_t d[] = {5, 1}; BigArray a; big_array_init(&a, v, "i4", 2, d, NULL); OK(!big_block_seek(&b, &p, 0)); OK(!big_block_write(&b, &p, &a));
 unsigned s0 = b.fchecksum[0], s1 = b.fchecksum[1]; OK(s0 == 12 && s1 == 33); OK(!big_block_grow(&b, 2, fs)); OK(b.fchecksum[0] == s0 && b.fchecksum[1] == s1 && b.fchecksum[2] == 0); OK(b.size == 10); return 0; }''')

seed('p08-dirty', 'P08', 'src/bigfile.c',
 [('''        int i;
        fheader = _big_file_open_a_file(block->basename, FILEID_HEADER, "w+", 1);''', '''        int i;
        block->dirty = 0;
        fheader = _big_file_open_a_file(block->basename, FILEID_HEADER, "w+", 1);'''), ('strerror(errno));\n        block->dirty = 0;\n    }\n    if(block->attrset->dirty)', 'strerror(errno));\n    }\n    if(block->attrset->dirty)')],
 'a flush whose header cannot be opened, followed by another flush', 'the failed flush marks the block as saved, so the next flush writes nothing',
 r'''int main() { BigFile f; BigBlock b; size_t fs[] = {2}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 1, fs));
 b.fchecksum[0] = 77; big_block_set_dirty(&b, 1); OK(!rename("f/b", "f/away")); OK(big_block_flush(&b)); OK(!rename("f/away", "f/b")); OK(!big_block_flush(&b)); OK(!big_block_close(&b));
 OK(!big_file_open_block(&f, &b, "b")); OK(b.fchecksum[0] == 77); return 0; }''')

seed('p09-room', 'P09', 'src/bigfile.c',
 [('    while(attrset->bufsize - attrset->bufused < size) {', '    while(attrset->bufsize - attrset->bufused < size - 1) {')],
 'an attribute that fits but for its last byte into the room left in the buffer', 'its last byte is stored past the end of the buffer',
 r'''int main() { BigFile f; BigBlock b; static char v[4000]; OK(!big_file_create(&f, "f"));
 for(int n = 1; n < 300; n ++) { OK(!big_file_create_block(&f, &b, "b", NULL, 0, 0, NULL)); OK(!big_block_set_attr(&b, "a", v, "S1", n)); OK(!big_block_close(&b)); } return 0; }''', flags='-fsanitize=address')

seed('p10-newline', 'P10', 'src/bigfile.c',
 [('''                    if(buf[0] == '\\n') {
                        strcat(textual, "...");
                        break;
                    } if(buf[0] == 0) {''', '''                    if(buf[0] == 0) {''')],
 'a text attribute with a line break in it', 'the line break ends the line of the attribute file inside the comment: the rest is read as another attribute',
 r'''int main() { BigFile f; BigBlock b; char v[] = "one\ntwo words and more", g[40] = {0}; int n = sizeof v; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", NULL, 0, 0, NULL));
 OK(!big_block_set_attr(&b, "a", v, "S1", n)); OK(!big_block_close(&b)); OK(!big_file_open_block(&f, &b, "b")); size_t c; big_block_list_attrs(&b, &c); OK(c == 1); OK(!big_block_get_attr(&b, "a", g, "S1", n)); OK(!memcmp(v, g, n)); return 0; }''')

seed('p11-signed', 'P11', 'src/bigfile.c',
 [('    unsigned char * cp = buf;', '    char * cp = buf;')],
 'data bytes of 128 and above', 'the checksum counts them as negative',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {2}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 1, fs));
 int32_t v[2] = {0xff, 200}; size_t d[] = {2, 1}; BigArray a; big_array_init(&a, v, "i4", 2, d, NULL); OK(!big_block_seek(&b, &p, 0)); OK(!big_block_write(&b, &p, &a)); OK(b.fchecksum[0] == 455); return 0; }''')

seed('p12-tight', 'P12', 'src/bigfile.c',
 [('    attrset->attrlist = malloc(attrset->listsize * sizeof(BigAttr));', '    attrset->attrlist = malloc((attrset->listused + 1) * sizeof(BigAttr));')],
 'attributes are added to a block that was handed over', 'the list is allocated smaller than its recorded size: adding attributes writes past it',
 r'''int main() { BigFile f; BigBlock b, c; int v = 3; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", NULL, 0, 0, NULL)); OK(!big_block_set_attr(&b, "a", &v, "i4", 1));
 size_t n; void * p = _big_block_pack(&b, &n); _big_block_unpack(&c, p); free(p); char name[3] = "x0"; for(int i = 0; i < 8; i ++) { name[1] = '0' + i; OK(!big_block_set_attr(&c, name, &v, "i4", 1)); } OK(!big_block_close(&c)); return 0; }''', flags='-fsanitize=address')

seed('p13-redefine', 'P13', 'src/bigfile-record.c',
 [('''        rtype->nfield = i + 1;
    } else {''', '''    } else {'''), ('''    rtype->fields[i].nmemb = nmemb;
}''', '''    rtype->fields[i].nmemb = nmemb;
    rtype->nfield = i + 1;
}''')],
 'a field other than the last is defined again', 'the fields after it are forgotten',
 r'''int main() { BigRecordType t; memset(&t, 0, sizeof t); big_record_type_add(&t, "a", "i4", 1); big_record_type_add(&t, "b", "f8", 2); big_record_type_add(&t, "c", "i8", 1);
 big_record_type_set(&t, 1, "b", "f4", 2); big_record_type_complete(&t); OK(t.nfield == 3); OK(t.itemsize == 20); OK(!strcmp(t.fields[2].name, "c") && t.fields[2].offset == 12); return 0; }''')

seed('p14-offset', 'P14', 'src/bigfile-record.c',
 [('''        RAISEIF(0 != big_block_seek(block, &ptr, offset),
            ex_seek,
            NULL);
        RAISEIF(0 != big_block_write(block, &ptr, array),''', '''        /* rows past the end are refused by the write */
        if(i == 0 || ptr.aoffset != offset)
            big_block_seek(block, &ptr, offset);
        RAISEIF(0 != big_block_write(block, &ptr, array),''')],
 'writing records at a row past the end', 'the records overwrite the first rows and success is returned',
 r'''int main() { BigFile f; BigRecordType t; memset(&t, 0, sizeof t); big_record_type_add(&t, "a", "i4", 1); big_record_type_add(&t, "b", "i4", 1); big_record_type_complete(&t);
 size_t fs[] = {3}; int32_t v[6] = {1, 2, 3, 4, 5, 6}, g[6] = {0}; OK(!big_file_create(&f, "f")); OK(!big_file_create_records(&f, &t, "w+", 1, fs)); OK(!big_file_write_records(&f, &t, 0, 3, v));
 int32_t w[2] = {9, 9}; OK(big_file_write_records(&f, &t, 5, 1, w)); OK(!big_file_read_records(&f, &t, 0, 3, g)); OK(!memcmp(v, g, sizeof v)); return 0; }''')

seed('p15-remainder', 'P15', 'src/bigfile-mpi.c',
 [('''        fsize[i] = size_grow * (i + 1) / Nfile_grow
                 - size_grow * (i) / Nfile_grow;''', '''        fsize[i] = size_grow / Nfile_grow;
        if(i == Nfile_grow - 1) fsize[i] += size_grow % Nfile_grow;''')],
 'growth by a number of rows that the number of files does not divide', 'all of the remainder goes to the last file, so sizes differ by more than one',
 r'''int main(int c, char ** v) { MPI_Init(&c, &v); BigFile f; BigBlock b; size_t fs[] = {3}; OK(!big_file_mpi_create(&f, "f", MPI_COMM_WORLD)); OK(!_big_file_mpi_create_block(&f, &b, "b", "i4", 1, 1, fs, MPI_COMM_WORLD));
 OK(!big_block_mpi_grow_simple(&b, 5, 23, MPI_COMM_WORLD)); size_t s = 0; for(int i = 1; i < 6; i ++) { s += b.fsize[i]; OK(b.fsize[i] >= 4 && b.fsize[i] <= 5); } OK(s == 23); OK(!big_block_mpi_close(&b, MPI_COMM_WORLD)); MPI_Finalize(); return 0; }''', mpi=2)

seed('p16-growfail', 'P16', 'src/bigfile-mpi.c',
 [('''            rt = -1;
            break;
    }

    BCAST_AND_RAISEIF(rt, comm);

    return rt;''', '''            rt = -1;
            break;
    }

    /* nobody uses the files before they are there */
    MPI_Barrier(comm);

    return rt;''')],
 'one rank cannot create its share of the new physical files', 'only that rank reports the failure',
 r'''int main(int c, char ** v) { MPI_Init(&c, &v); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); BigFile f; BigBlock b; size_t fs[] = {3, 2, 1, 4}; OK(!big_file_mpi_create(&f, "f", MPI_COMM_WORLD)); OK(!_big_file_mpi_create_block(&f, &b, "b", "i4", 1, 1, fs, MPI_COMM_WORLD));
 if(rank == 0) mkdir("f/b/000004", 0777); MPI_Barrier(MPI_COMM_WORLD); int r = big_block_mpi_grow(&b, 4, fs, MPI_COMM_WORLD), mn, mx; MPI_Allreduce(&r, &mn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(&r, &mx, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
 OK(mn == mx && r != 0); MPI_Finalize(); return 0; }''', mpi=2)

seed('p17-base', 'P17', 'src/bigfile-mpi.c',
 [('''        MPI_Bcast(&offset, 1, MPI_LONG, 0, seggrp->Segment);''', '''        MPI_Bcast(&offset, 1, MPI_LONG, seggrp->segment_leader_rank, seggrp->Segment);''')],
 'aggregation, and a segment whose smallest piece is not on its first rank', 'the aggregated rows start at the offset of the leader instead of that of the first rank',
 r'''int main(int c, char ** v) { MPI_Init(&c, &v); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {9}; OK(!big_file_mpi_create(&f, "f", MPI_COMM_WORLD)); OK(!_big_file_mpi_create_block(&f, &b, "b", "i4", 1, 1, fs, MPI_COMM_WORLD));
 int n[] = {3, 1, 2}, o[] = {0, 3, 4}; int32_t d[3], g[6]; for(int i = 0; i < 3; i ++) d[i] = 10 + o[rank] + i; size_t dim[] = {n[rank], 1}; BigArray a; big_array_init(&a, d, "i4", 2, dim, NULL); big_file_mpi_set_aggregated_threshold(1 << 20);
 OK(!big_block_seek(&b, &p, 1)); OK(!big_block_mpi_write(&b, &p, &a, 1, MPI_COMM_WORLD)); MPI_Barrier(MPI_COMM_WORLD);
 if(rank == 0) { FILE * r = fopen("f/b/000000", "r"); OK(!fseek(r, 4, SEEK_SET)); OK(6 == fread(g, 4, 6, r)); fclose(r); for(int i = 0; i < 6; i ++) OK(g[i] == 10 + i); } OK(!big_block_mpi_close(&b, MPI_COMM_WORLD)); MPI_Finalize(); return 0; }''', mpi=3)

seed('p18-short', 'P18', 'src/bigfile.c',
 [('        RAISEIF(chunk_size != fread(chunkbuf, felsize, chunk_size, fp),', '        RAISEIF(0 == fread(chunkbuf, felsize, chunk_size, fp),')],
 'a physical file that is shorter than its header says', 'a short read is reported as success and stale bytes are returned',
 r'''int main() { BigFile f; BigBlock b; BigBlockPtr p; size_t fs[] = {4}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 1, fs));
 int32_t v[4] = {1, 2, 3, 4}; size_t d[] = {4, 1}; BigArray a; big_array_init(&a, v, "i4", 2, d, NULL); OK(!big_block_seek(&b, &p, 0)); OK(!big_block_write(&b, &p, &a)); OK(!truncate("f/b/000000", 8));
 OK(!big_block_seek(&b, &p, 0)); OK(big_block_read(&b, &p, &a)); return 0; }''')

seed('p19-fileid', 'P19', 'src/bigfile.c',
 [('RAISEIF(fid < 0 || fid >= bb->Nfile, ex_fscanf1,', 'RAISEIF((unsigned int) fid > bb->Nfile, ex_fscanf1,')],
 'a header that names the file just after the last', 'the entry is accepted, and one file of the table stays without a size',
 r'''int main() { BigFile f; BigBlock b; size_t fs[] = {4, 4}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 2, fs)); OK(!big_block_close(&b));
 FILE * w = fopen("f/b/header", "w"); fprintf(w, "DTYPE: <i4\nNMEMB: 1\nNFILE: 2\n000000: 4 : 0 : 0\n000002: 4 : 0 : 0\n"); fclose(w); OK(big_file_open_block(&f, &b, "b")); return 0; }''')

seed('p20-terminate', 'P20', 'src/bigfile.c',
 [("    dst[7]='\\0';\n", '')],
 'a type string of eight or more characters that starts with a byte order mark', 'the normalized string is not terminated within its eight bytes',
 r'''int main() { struct { char d[8]; char g[8]; } x; memset(&x, 'x', sizeof x); _dtype_normalize(x.d, "<S1234567890"); OK(memchr(x.d, 0, 8)); OK(x.g[0] == 'x'); return 0; }''')

seed('p21-lowercase', 'P21', 'src/bigfile.c',
 [('#define EXT_DATA   "%06X"', '#define EXT_DATA   "%06x"')],
 'a block of more than ten physical files', 'files from number ten on get other names than the format defines, so blocks of other versions are not found',
 r'''int main() { BigFile f; BigBlock b; size_t fs[12] = {0}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 12, fs)); OK(!access("f/b/00000B", F_OK)); OK(!big_block_close(&b)); return 0; }''')

seed('p22-nested', 'P22', 'src/bigfile.c',
 [('''            bblist = n;
        } else {
            bblist = listbigfile_r(basename, blockname1, bblist);
        }
        free(fullpath1);''', '''            bblist = n;
        }
        /* there may be more below */
        bblist = listbigfile_r(basename, blockname1, bblist);
        free(fullpath1);''')],
 'a block whose directory contains another block', 'blocks are descended into',
 r'''int main() { BigFile f; BigBlock b; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", NULL, 0, 0, NULL)); OK(!big_block_close(&b)); OK(!big_file_create_block(&f, &b, "b/c", NULL, 0, 0, NULL)); OK(!big_block_close(&b));
 char ** n; int k; OK(!big_file_list(&f, &n, &k)); OK(k == 1 && !strcmp(n[0], "b")); return 0; }''')

seed('p23-leader', 'P23', 'src/mp-mpiu.c',
 [('    if (memcmp(base, tmp, elsize) == 0) {', '    if (memcmp(base, tmp, sizeof(int)) == 0) {')],
 'sizes whose low 32 bits agree although the sizes differ', 'a rank that does not hold the least data is chosen as leader',
 r'''int main(int c, char ** v) { MPI_Init(&c, &v); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); size_t s[] = {5 + (1ul << 33), 5 + (1ul << 32), 5}; MPIU_Segmenter g; MPIU_Segmenter_init(&g, s, NULL, 1ul << 40, 1, MPI_COMM_WORLD); OK(g.segment_leader_rank == 2); MPIU_Segmenter_destroy(&g); MPI_Finalize(); return 0; }''', mpi=3)

seed('p24-extent', 'P24', 'src/mp-mpiu.c',
 [('                ((char*) recvbuf) + recv_elsize * rdispls[target],', '                ((char*) recvbuf) + send_elsize * rdispls[target],')],
 'the sparse exchange with send and receive types of different extent', 'items are placed at the wrong address',
 r'''int main(int c, char ** v) { MPI_Init(&c, &v); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Datatype t; MPI_Type_create_resized(MPI_INT, 0, 12, &t); MPI_Type_commit(&t);
 int s[2] = {rank * 10, rank * 10 + 1}, n[] = {1, 1}, r[8] = {-1, -1, -1, -1, -1, -1, -1, -1}; OK(0 == MPIU_Alltoallv(s, n, NULL, MPI_INT, r, NULL, NULL, t, MPI_COMM_WORLD, REQUIRED)); OK(r[0] == rank && r[3] == 10 + rank && r[1] == -1); MPI_Finalize(); return 0; }''', mpi=2)

seed('p25-unsigned', 'P25', 'src/bigfile.c',
 [('    FORMAT1(u4, "%u")', '    FORMAT1(u4, "%d")')],
 'unsigned values above 2^31', 'they are printed as negative numbers',
 r'''int main() { char b[100]; unsigned char be[4] = {0xee, 0x6b, 0x28, 0x00}; big_file_dtype_format(b, ">u4", be, NULL); OK(!strcmp(b, "4000000000")); return 0; }''')

# --- more
seed('p06-halfswap', 'P06', 'src/bigfile.c',
 [('    if(elsize == 1) return;\n', '    if(elsize == 1) return;\n    if(nmemb > 1 && iter->contiguous && elsize == 8 && nparts == 1) {\n        /* whole words */\n        uint64_t * w = iter->dataptr;\n        while(nmemb > 0) { nmemb --; w[nmemb] = __builtin_bswap64(w[nmemb]); }\n        return;\n    }\n'),
  ('    ptrdiff_t i;\n    int half = elsize >> 1;', '    int half = elsize >> 1;\n    ptrdiff_t i;')],
 'none: the byte order is right, but the iterator does not move', 'placeholder', '')
SEEDS.pop()

seed('p11-twofiles', 'P11', 'src/bigfile.c',
 [('            unsigned int r = (s & 0xffff) + ((s & 0xffffffff) >> 16);', '            unsigned int r = (s & 0xffff) + ((s & 0xffffff) >> 16);')],
 'more than 2^24 of byte values in one physical file', 'the System V checksum in the header ignores the top bits of the sum',
 r'''int main() { BigFile f; BigBlock b; size_t fs[] = {1}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 1, fs)); b.fchecksum[0] = 0x12345678; big_block_set_dirty(&b, 1); OK(!big_block_close(&b));
 unsigned s, k; long n; FILE * r = fopen("f/b/header", "r"); OK(3 == fscanf(r, " DTYPE: %*s NMEMB: %*d NFILE: %*d 000000: %ld : %u : %u", &n, &s, &k)); OK(s == 0x12345678 && k == 0x1234 + 0x5678); return 0; }''')

seed('p07-create', 'P07', 'src/bigfile.c',
 [('            bb->foffset[i + 1] = bb->foffset[i] + bb->fsize[i];\n            bb->fchecksum[i] = 0;', '            bb->foffset[i + 1] = (unsigned int) (bb->foffset[i] + bb->fsize[i]);\n            bb->fchecksum[i] = 0;')],
 'a block of 2^32 rows or more', 'the total size and the row positions wrap',
 r'''int main() { BigFile f; BigBlock b; size_t fs[] = {3000000000, 3000000000}; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", "i4", 1, 2, fs)); OK(b.size == 6000000000); OK(!big_block_close(&b)); return 0; }''')

seed('p09-order', 'P09', 'src/bigfile.c',
 [('''    memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
        (attrset->listused - ind - 1) * sizeof(BigAttr));''', '''    /* fill the hole with the last one */
    attrset->attrlist[ind] = attrset->attrlist[attrset->listused - 1];''')],
 'removing an attribute that is neither the last nor next to last in name order', 'the list is no longer in name order, so attributes are not found',
 r'''int main() { BigFile f; BigBlock b; int v = 3; OK(!big_file_create(&f, "f")); OK(!big_file_create_block(&f, &b, "b", NULL, 0, 0, NULL)); char n[] = "a"; for(int i = 0; i < 6; i ++) { n[0] = 'a' + i; OK(!big_block_set_attr(&b, n, &v, "i4", 1)); }
 OK(!big_block_remove_attr(&b, "a")); for(int i = 1; i < 6; i ++) { n[0] = 'a' + i; OK(big_block_lookup_attr(&b, n)); } return 0; }''')

seed('p17-narrow', 'P17', 'src/bigfile-mpi.c',
 [('    if(avgsegsize > _BigFileAggThreshold) avgsegsize = _BigFileAggThreshold;', '    if(avgsegsize > _BigFileAggThreshold) avgsegsize = _BigFileAggThreshold;\n    if(concurrency > 1 && totalsize < NTask) concurrency = totalsize;'),
  ('    size_t avgsegsize;\n    size_t localsize = array->dims[0];', '    size_t localsize = array->dims[0];\n    size_t avgsegsize;')],
 'a collective transfer of no rows at all by several ranks', 'placeholder', '')
SEEDS.pop()

seed('p23-tail', 'P23', 'src/mp-mpiu.c',
 [('''        if(current_size > glocalsize || current_sizes2 > glocalsize) {''', '''        if(current_size > glocalsize + glocalsize / 2 && sizes[i] == 0) current_color ++;
        if(current_size > glocalsize || current_sizes2 > glocalsize) {''')],
 'placeholder', 'placeholder', '')
SEEDS.pop()

DEMO = '''#!/bin/bash
# run in /repo after the build; exit 0 when the library behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$t"' EXIT
'''
def demo_sh(s):
    if s['mpi']:
        return DEMO + '''. /opt/vp/env.sh >/dev/null 2>&1
gcc -g -w -D_GNU_SOURCE %s -I"$repo/src" -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi "$here/demo.c" "$repo"/src/bigfile.c "$repo"/src/bigfile-record.c "$repo"/src/bigfile-mpi.c "$repo"/src/mp-mpiu.c -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -lm -o "$t/demo" || exit 2
cd "$t" && export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 TMPDIR="$t"
timeout 120 mpirun --oversubscribe -n %d ./demo
''' % (s['flags'], s['mpi'])
    return DEMO + '''gcc -g -w -D_GNU_SOURCE %s -I"$repo/src" "$here/demo.c" "$repo"/src/bigfile.c "$repo"/src/bigfile-record.c -lm -o "$t/demo" || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
''' % s['flags']

def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr

def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(H, 'seeded', s['id'])
        if os.path.exists(os.path.join(d, 'patch.diff')) and not want:
            continue
        w = tempfile.mkdtemp(prefix='seed-')
        r = os.path.join(w, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        os.makedirs(d, exist_ok=True)
        pre = (MPIPRE if s['mpi'] else PRE)
        open(os.path.join(d, 'demo.c'), 'w').write(s['pre'] + pre + s['demo'] + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh(s)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        c0, o0 = sh('bash %s/demo.sh' % d, r)
        p = os.path.join(r, s['file']); t = open(p).read()
        bad = None
        for a, b in s['edits']:
            if a not in t:
                bad = 'text not found: ' + a[:80]
                break
            t = t.replace(a, b, 1)
        if not bad:
            open(p, 'w').write(t)
            c1, o1 = sh('bash %s/demo.sh' % d, r)
            _, diff = sh('git diff', r)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            # existing tests
            if os.path.exists('/opt/vp/build.sh'):
                sh('git stash -q 2>/dev/null; true', '/tmp')
            print(s['id'], 'clean', c0, 'patched', c1, o1.strip().splitlines()[-1:] if c1 else '', o0[-300:] if c0 else '')
        else:
            print(s['id'], bad)
        shutil.rmtree(w)
main()
