From 5205b15453dd8a492dacca710de6a47aae00aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 01/20] fix: seeking in a block without data files no longer
 dereferences its missing offset table

The root block '.' has no foffset table. big_block_seek with a negative
offset, big_block_seek_rel and big_block_eof read it anyway and crashed.
---
 src/bigfile.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..619ef5f 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -702,7 +702,7 @@ big_block_seek(BigBlock * bb, BigBlockPtr * ptr, ptrdiff_t offset)
         return 0;
     }
     /* handle negatives */
-    if(offset < 0) offset += bb->foffset[bb->Nfile];
+    if(offset < 0) offset += bb->size;
 
     RAISEIF(offset > bb->size, 
             ex_eof,
@@ -733,15 +733,13 @@ ex_eof:
 int
 big_block_seek_rel(BigBlock * bb, BigBlockPtr * ptr, ptrdiff_t rel)
 {
-    ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset + rel;
-    return big_block_seek(bb, ptr, abs);
+    return big_block_seek(bb, ptr, ptr->aoffset + rel);
 }
 
 int
 big_block_eof(BigBlock * bb, BigBlockPtr * ptr)
 {
-    ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset;
-    return abs >= bb->size;
+    return ptr->aoffset >= bb->size;
 }
 
 /* 
-- 
2.43.0


From 993582f242b2f86d17455f4d71ab94abec89ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 02/20] fix: refuse to transfer rows of zero width or rows
 larger than the buffer

big_block_write looped forever when a row did not fit into the internal
buffer, both big_block_read and big_block_write divided by zero on the
root block, and a block without members wrote uninitialised memory.
---
 src/bigfile.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 619ef5f..099f316 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -799,7 +799,7 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    size_t CHUNK_SIZE = felsize > 0 ? CHUNK_BYTES / felsize : 0;
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -816,6 +816,11 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
             ex_malloc,
             "Not enough memory for chunkbuf");
 
+    RAISEIF(CHUNK_SIZE == 0 || (bb->nmemb == 0 && array->size > 0),
+            ex_felsize,
+            "Rows of block `%s' (%d bytes, %d members) cannot be transferred with a buffer of %td bytes",
+            bb->basename, felsize, bb->nmemb, CHUNK_BYTES);
+
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
 
@@ -880,6 +885,7 @@ ex_convert:
 ex_blockseek:
 ex_open:
 ex_eof:
+ex_felsize:
     free(chunkbuf);
 ex_malloc:
     return -1;
@@ -894,7 +900,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    size_t CHUNK_SIZE = felsize > 0 ? CHUNK_BYTES / felsize : 0;
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -910,6 +916,11 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
             ex_malloc,
             "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
 
+    RAISEIF(CHUNK_SIZE == 0 || (bb->nmemb == 0 && array->size > 0),
+            ex_felsize,
+            "Rows of block `%s' (%d bytes, %d members) cannot be transferred with a buffer of %td bytes",
+            bb->basename, felsize, bb->nmemb, CHUNK_BYTES);
+
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
 
@@ -967,6 +978,7 @@ ex_convert:
 ex_open:
 ex_blockseek:
 ex_eof:
+ex_felsize:
     free(chunkbuf);
 ex_malloc:
     return -1;
-- 
2.43.0


From 0b17958451b9d4d6fff9c9cb9ddda84c8be546ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 03/20] fix: creating a block refuses type strings that cannot
 be opened again

big_block_create stored any type string in the header, but opening a block
only accepts known kinds with a width of 1 to 16, so the block was lost.
The error paths of create now also release the name and the attribute set.
---
 src/bigfile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 099f316..ef56bb3 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -497,6 +497,9 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         }
         /* always use normalized dtype in files. */
         _dtype_normalize(bb->dtype, dtype);
+        /* opening the block would refuse it */
+        RAISEIF(!dtype_isvalid(bb->dtype), ex_dtype,
+                "Unreasonable value for dtype of block `%s' (%s)", bb->basename, dtype);
 
         bb->Nfile = Nfile;
         bb->nmemb = nmemb;
@@ -523,13 +526,15 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         bb->dirty = 0;
         return 0;
 ex_flush:
-        attrset_free(bb->attrset);
         free(bb->foffset);
 ex_foffset:
         free(bb->fchecksum);
 ex_fchecksum:
         free(bb->fsize);
 ex_fsize:
+ex_dtype:
+        attrset_free(bb->attrset);
+        free(bb->basename);
         return -1;
     } else {
         /* special meta block of a file */
@@ -545,6 +550,7 @@ ex_fsize:
 
 ex_flush2:
         attrset_free(bb->attrset);
+        free(bb->basename);
         return -1;
     }
 
-- 
2.43.0


From 57b13297e64bb45e87a738ef5ad1e92e587ed5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 04/20] fix: error messages are not used as format strings and
 have room for long names

_big_file_raise formatted the recorded message again when an error is passed
on, so a name containing '%' crashed the library, and a name longer than
512 bytes overflowed the message buffer.
---
 src/bigfile.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ef56bb3..af30286 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -156,23 +156,26 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
+    va_list va;
+    char * errorstr;
+    size_t len;
+
     if(!msg) {
-        if(ERRORSTR) {
-            msg = ERRORSTR;
-        } else {
-            msg = "UNKNOWN ERROR";
-        }
+        /* propagate the recorded message; it is text, not a format */
+        msg = ERRORSTR ? ERRORSTR : "UNKNOWN ERROR";
+        len = strlen(msg);
+        errorstr = malloc(len + strlen(file) + 64);
+        strcpy(errorstr, msg);
+    } else {
+        va_start(va, line);
+        len = vsnprintf(NULL, 0, msg, va);
+        va_end(va);
+        errorstr = malloc(len + strlen(file) + 64);
+        va_start(va, line);
+        vsprintf(errorstr, msg, va);
+        va_end(va);
     }
-
-    size_t len = strlen(msg) + strlen(file) + 512;
-    char * errorstr = malloc(len);
-
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
-    va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
-    va_end(va);
+    sprintf(errorstr + len, " @(%s:%d)", file, line);
 
     big_file_set_error_message(errorstr);
     free(errorstr);
-- 
2.43.0


From da032da0a7039547198c10bce444b7fe57515419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 05/20] fix: converting from a foreign byte order no longer
 swaps the source in place

The caller's array (written with big_block_write), a stored attribute (read
with big_block_get_attr) and the const argument of big_file_dtype_format
were byte swapped and stayed so.
---
 src/bigfile.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index af30286..ba07248 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1284,17 +1284,29 @@ int
 _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
 {
     /* cast buf2 of dtype2 into buf1 of dtype1 */
-    /* match src to machine endianness */
+    BigArrayIter iter1 = *dst;
+    BigArrayIter iter2 = *src;
+    BigArrayIter advanced = *src;
+    BigArray native;
+    void * buffer = NULL;
+
+    /* match src to machine endianness, in a copy: the source is not ours to change */
     if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
+        buffer = malloc(big_file_dtype_itemsize(src->array->dtype) * nmemb + 1);
+        RAISEIF(buffer == NULL,
+                ex_malloc,
+                "Not enough memory for converting %td items", nmemb);
+        big_array_init(&native, buffer, src->array->dtype, 1, &nmemb, NULL);
+        big_array_iter_init(&iter2, &native);
+        BigArrayIter iter = iter2;
+        cast(&iter, &advanced, nmemb);
+        iter = iter2;
         byte_swap(&iter, nmemb);
     }
 
-    BigArrayIter iter1 = *dst;
-    BigArrayIter iter2 = *src;
-
     if(0 != cast(&iter1, &iter2, nmemb)) {
         /* cast is not supported */
+        free(buffer);
         return -1;
     }
 
@@ -1304,8 +1316,11 @@ _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
         byte_swap(&iter, nmemb);
     }
     *dst = iter1;
-    *src = iter2;
+    *src = buffer ? advanced : iter2;
+    free(buffer);
     return 0;
+ex_malloc:
+    return -1;
 }
 
 
-- 
2.43.0


From aa9d121433fb52938de1158b0892eb969670479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 06/20] fix: byte swapping keeps the parts of complex numbers
 in order and leaves text alone

Reversing all bytes of a complex number exchanged its real and imaginary
part; reversing the bytes of a string reversed the string.
---
 src/bigfile.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ba07248..5357366 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1329,14 +1329,27 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
 {
     /* swap a buffer in-place */
     int elsize = big_file_dtype_itemsize(iter->array->dtype);
+    int nparts = 1;
+    switch(iter->array->dtype[1]) {
+        case 'c':
+            /* the real and imaginary parts are swapped, each by itself */
+            nparts = 2;
+            elsize /= 2;
+            break;
+        case 'S':
+        case 'a':
+            /* text has no byte order */
+            return;
+    }
     if(elsize == 1) return;
     /* need byte swap; do it now on buf2 */
     /* XXX: this may still be wrong. */
     ptrdiff_t i;
     int half = elsize >> 1;
     for(i = 0; i < nmemb; i ++) {
-        int j;
+        int j, part;
         char * ptr = iter->dataptr;
+        for(part = 0; part < nparts; part ++, ptr += elsize)
         for(j = 0; j < half; j ++) {
             char tmp = ptr[j];
             ptr[j] = ptr[elsize - j - 1];
-- 
2.43.0


From 31fb5bfd02536c495d6bbc1eb77cfe4353fe8bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 07/20] fix: report failures to close files, count only stored
 bytes, keep attributes dirty until they are saved

---
 src/bigfile.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 5357366..5123981 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -464,7 +464,9 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to close physical file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
     return 0;
 
@@ -576,7 +578,9 @@ _big_block_create(BigBlock * bb, const char * basename, const char * dtype, int
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to close physical file %d of block `%s' (%s)", i, bb->basename, strerror(errno));
     }
 ex_internal:
     return rt;
@@ -612,7 +616,9 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        fclose(fheader);
+        RAISEIF(0 != fclose(fheader),
+                ex_fileio,
+                "Failed to close header of block `%s' (%s)", block->basename, strerror(errno));
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -958,8 +964,6 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         RAISEIF(0 != _dtype_convert(&chunk_iter, &array_iter, chunk_size * bb->nmemb),
             ex_convert, NULL);
 
-        sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
-
         fp = _big_file_open_a_file(bb->basename, ptr->fileid, "r+", 1);
         RAISEIF(fp == NULL,
                 ex_open,
@@ -972,7 +976,12 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 ex_write,
                 "Failed to write in block `%s' at (%d:%td) (%s)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_close,
+                "Failed to close physical file %d of block `%s' (%s)", ptr->fileid, bb->basename, strerror(errno));
+
+        /* only what has been stored counts */
+        sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
 
         towrite -= chunk_size;
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
@@ -983,6 +992,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
@@ -1608,7 +1618,6 @@ static int
 attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
-    attrset->dirty = 0;
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
     RAISEIF(fattr == NULL,
@@ -1668,7 +1677,9 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    fclose(fattr);
+    RAISEIF(0 != fclose(fattr),
+            ex_open,
+            "Failed to close attribute file of `%s' (%s)", basename, strerror(errno));
     return 0;
 ex_write:
     fclose(fattr);
-- 
2.43.0


From 7dc43e5fbfb5f6228a23aad983cf3fc4e38ec990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 08/20] fix: removing an attribute marks the attributes as
 needing to be saved

---
 src/bigfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 5123981..4ff07a5 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -674,7 +674,10 @@ big_block_lookup_attr(BigBlock * block, const char * attrname)
 int
 big_block_remove_attr(BigBlock * block, const char * attrname)
 {
-    return attrset_remove_attr(block->attrset, attrname);
+    int rt = attrset_remove_attr(block->attrset, attrname);
+    if(rt == 0)
+        block->attrset->dirty = 1;
+    return rt;
 }
 
 BigAttr *
-- 
2.43.0


From dc93b800b79b0e0d23f1eafc55bfa2772d0de4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 09/20] fix: reading from a negative start returns the rows
 that remain

---
 src/bigfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4ff07a5..03bd4f0 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -785,6 +785,9 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
        "failed to seek"       
     );
 
+    /* a negative start counts from the end */
+    start = ptr.aoffset;
+
     if(start + size > bb->size){
         size = bb->size - start;
     }
-- 
2.43.0


From 5886f28fa3e2fb81e41ba8d412b5c4e787073264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 10/20] fix: opening damaged headers and attribute files stays
 within buffers and releases everything

---
 src/bigfile.c | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 03bd4f0..ee1e9c3 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -340,7 +340,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 NULL);
 
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
+               (1 != fscanf(fheader, " DTYPE: %7s", bb->dtype)) ||
                (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
                (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
                ex_fscanf,
@@ -366,21 +366,25 @@ _big_block_open(BigBlock * bb, const char * basename)
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
         for(i = 0; i < bb->Nfile; i ++) {
-            int fid; 
-            size_t size;
+            int fid = -1;
+            ptrdiff_t size;
             unsigned int cksum;
             unsigned int sysv;
-            RAISEIF(4 != fscanf(fheader, " " EXT_DATA ": %td : %u : %u", &fid, &size, &cksum, &sysv),
+            RAISEIF(4 != fscanf(fheader, " %X: %td : %u : %u", (unsigned int *) &fid, &size, &cksum, &sysv),
                     ex_fscanf1,
                     "Failed to readin physical file layout `%s' %d (%s)", bb->basename, fid,
                     strerror(errno));
             RAISEIF(fid < 0 || fid >= bb->Nfile, ex_fscanf1,
                     "Non-existent file referenced: `%s' (%d)", bb->basename, fid);
+            RAISEIF(size < 0, ex_fscanf1,
+                    "Unreasonable size of file in header of block `%s' (%td)", bb->basename, size);
             bb->fsize[fid] = size;
             bb->fchecksum[fid] = cksum;
         }
         bb->foffset[0] = 0;
         for(i = 0; i < bb->Nfile; i ++) {
+            RAISEIF(bb->fsize[i] > PTRDIFF_MAX - bb->foffset[i], ex_fscanf1,
+                    "Unreasonable size of block `%s'", bb->basename);
             bb->foffset[i + 1] = bb->foffset[i] + bb->fsize[i];
         }
         bb->size = bb->foffset[bb->Nfile];
@@ -399,6 +403,8 @@ ex_fsize:
 ex_fscanf:
         fclose(fheader);
 ex_open:
+        attrset_free(bb->attrset);
+        free(bb->basename);
         return -1;
     } else {
         /* The meta block of a big file, has on extra files. */
@@ -408,6 +414,8 @@ ex_open:
     }
 
 ex_readattr:
+        attrset_free(bb->attrset);
+        free(bb->basename);
         return -1;
 }
 
@@ -1506,8 +1514,12 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     int nmemb;
     int lname;
     char dtype[9]={0};
-    char * data;
-    char * name;
+    char * data = NULL;
+    char * name = NULL;
+    /* nothing in the file is longer than the file */
+    fseek(fattr, 0, SEEK_END);
+    long size = ftell(fattr);
+    fseek(fattr, 0, SEEK_SET);
     while(!feof(fattr)) {
         if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
         RAISEIF(
@@ -1517,10 +1529,15 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             ex_fread,
             "Failed to read from file"
                 )
-        int ldata = big_file_dtype_itemsize(dtype) * nmemb;
-        data = alloca(ldata);
-        name = alloca(lname + 1);
+        long ldata = (long) big_file_dtype_itemsize(dtype) * nmemb;
+        RAISEIF(lname < 0 || lname > size || ldata < 0 || ldata > size,
+            ex_fread,
+            "Unreasonable size of attribute (%d, %d)", lname, nmemb);
+        data = malloc(ldata);
+        name = malloc((long) lname + 1);
         RAISEIF(
+            (NULL == data) ||
+            (NULL == name) ||
             (1 != fread(name, lname, 1, fattr)) ||
             (1 != fread(data, ldata, 1, fattr)),
             ex_fread,
@@ -1530,12 +1547,18 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
         RAISEIF(0 != attrset_set_attr(attrset, name, data, dtype, nmemb),
             ex_set_attr,
             NULL);
+        free(name);
+        free(data);
+        name = NULL;
+        data = NULL;
     }
     attrset->dirty = 0;
     fclose(fattr);
     return 0;
 ex_set_attr:
 ex_fread:
+    free(name);
+    free(data);
     attrset->dirty = 0;
     fclose(fattr);
     return -1;
@@ -1572,7 +1595,8 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     long i = 0;
     #define ATTRV2_EXPECT(variable) while(_isblank(buffer[i])) i++; \
                     char * variable = buffer + i; \
-                    while(!_isblank(buffer[i])) i++; buffer[i] = 0; i++;
+                    while(buffer[i] && !_isblank(buffer[i])) i++; \
+                    if(buffer[i]) { buffer[i] = 0; i++; }
     while(buffer[i]) {
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
@@ -1585,9 +1609,9 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
         int nmemb = atoi(rawlength);
         int itemsize = big_file_dtype_itemsize(dtype);
 
-        RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
+        RAISEIF(nmemb < 0 || itemsize < 0 || (size_t) nmemb * itemsize * 2 != strlen(rawdata),
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
+            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %td",
             nmemb, itemsize, dtype, strlen(rawdata));
 
         int j, k;
-- 
2.43.0


From 38b182b04b8ab343c64b1a4c2e29c287c961ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 11/20] fix: attributes without members can be read back,
 unreadable ones are refused

---
 src/bigfile.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index ee1e9c3..9344970 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1601,7 +1601,12 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
         ATTRV2_EXPECT(rawlength);
-        ATTRV2_EXPECT(rawdata);
+        /* an attribute without members has no data */
+        char * rawdata = "";
+        if(atoi(rawlength) != 0) {
+            ATTRV2_EXPECT(hexdata);
+            rawdata = hexdata;
+        }
         /* skip the reset of the line */
         while(buffer[i] != '\n' && buffer[i]) i ++;
         if(buffer[i] == '\n') i++;
@@ -1818,6 +1823,14 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       ex_name,
       "Attribute name cannot contain blanks (space, tab or newline)"
     );
+    /* these could not be read back from the attribute file */
+    RAISEIF (attrname[0] == 0 || nmemb < 0
+      || big_file_dtype_itemsize(dtype) <= 0
+      || strpbrk(dtype, " \t\n"),
+      ex_name,
+      "Attribute `%s' of %d members of type `%s' cannot be stored",
+      attrname, nmemb, dtype
+    );
 
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
-- 
2.43.0


From 6dd0c3f19fb37e021f2711ac25f845add7b47f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 12/20] fix: a regular file in place of a directory is reported

---
 src/bigfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 9344970..c06e424 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -2052,9 +2052,9 @@ int _big_file_mkdir(const char * dirname)
     /* stat is to make sure the dir doesn't exist; it could be owned by others and stopped
      * by a permission error, but we are still OK, as the dir is created*/
 
-    /* already exists; only check stat after mkdir fails with EACCES, avoid meta data calls. */
+    /* only check stat after mkdir fails, avoid meta data calls. */
 
-    RAISEIF((mkdirret !=0 && errno != EEXIST && stat(dirname, &buf)),
+    RAISEIF((mkdirret !=0 && (0 != stat(dirname, &buf) || !S_ISDIR(buf.st_mode))),
         ex_mkdir,
         "Failed to create directory structure at `%s' (%s)",
         dirname,
-- 
2.43.0


From cacdbcb47a8dd1815ccbc45e3b58c8ec71a1267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 13/20] fix: creating a file that fails releases its name

---
 src/bigfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index c06e424..1a2f944 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -204,6 +204,8 @@ int big_file_create(BigFile * bf, const char * basename) {
         NULL);
     return 0;
 ex_subdir:
+    free(bf->basename);
+    bf->basename = NULL;
     return -1;
 }
 
-- 
2.43.0


From 314953d5fb21c11b2a760ae0147a6387c92b6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 14/20] fix: displacements are only computed where the counts
 are known

---
 src/mp-mpiu.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mp-mpiu.c b/src/mp-mpiu.c
index 8daea96..2e460c5 100644
--- a/src/mp-mpiu.c
+++ b/src/mp-mpiu.c
@@ -286,12 +286,11 @@ MPIU_Gather (MPI_Comm comm, int root, const void * sendbuffer, void * recvbuffer
     int i;
     MPI_Gather(&nsend, 1, MPI_INT, recvcount, 1, MPI_INT, root, comm);
 
-    rdispls[0] = 0;
-    for(i = 1; i <= NTask; i ++) {
-        rdispls[i] = rdispls[i - 1] + recvcount[i - 1];
-    }
-
     if(ThisTask == root) {
+        rdispls[0] = 0;
+        for(i = 1; i <= NTask; i ++) {
+            rdispls[i] = rdispls[i - 1] + recvcount[i - 1];
+        }
         if(recvbuffer == NULL)
             recvbuffer = MPIU_Malloc("recvbuffer", elsize, rdispls[NTask]);
         if(totalnrecv)
@@ -326,15 +325,14 @@ MPIU_Scatter (MPI_Comm comm, int root, const void * sendbuffer, void * recvbuffe
 
     MPI_Gather(&nrecv, 1, MPI_INT, sendcount, 1, MPI_INT, root, comm);
 
-    sdispls[0] = 0;
-    for(i = 1; i <= NTask; i ++) {
-        sdispls[i] = sdispls[i - 1] + sendcount[i - 1];
-    }
-
     if(recvbuffer == NULL)
         recvbuffer = MPIU_Malloc("recvbuffer", elsize, nrecv);
 
     if(ThisTask == root) {
+        sdispls[0] = 0;
+        for(i = 1; i <= NTask; i ++) {
+            sdispls[i] = sdispls[i - 1] + sendcount[i - 1];
+        }
         if(totalnsend)
             *totalnsend = sdispls[NTask];
     } else {
-- 
2.43.0


From 73695bb28204aca28251b8dd3207782c82536f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 15/20] fix: collective flush and grow count each rank's writes
 once

---
 src/bigfile-mpi.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..8088b35 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -210,6 +210,26 @@ _big_block_mpi_create(BigBlock * bb,
     return rt;
 }
 
+/* Move what the other ranks have written since the last broadcast to the root rank.
+ * The root then holds all of the checksums, and the other ranks none. */
+static void
+big_block_mpi_collect(BigBlock * block, MPI_Comm comm)
+{
+    int rank;
+    MPI_Comm_rank(comm, &rank);
+
+    unsigned int * checksum = calloc(block->Nfile + 1, sizeof(checksum[0]));
+    MPI_Reduce(block->fchecksum, checksum, block->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
+    if(block->fchecksum)
+        memcpy(block->fchecksum, checksum, block->Nfile * sizeof(checksum[0]));
+    free(checksum);
+
+    int dirty = 0;
+    MPI_Reduce(&block->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
+    if(rank == 0)
+        big_block_set_dirty(block, dirty);
+}
+
 int
 big_block_mpi_grow(BigBlock * bb,
     int Nfile_grow,
@@ -227,6 +247,9 @@ big_block_mpi_grow(BigBlock * bb,
 
     int oldNfile = bb->Nfile;
 
+    /* the other ranks are closed below */
+    big_block_mpi_collect(bb, comm);
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
@@ -280,18 +303,10 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
     int rank;
     MPI_Comm_rank(comm, &rank);
 
-    unsigned int * checksum = alloca(sizeof(int) * block->Nfile);
-    MPI_Reduce(block->fchecksum, checksum, block->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
-    int dirty;
-    MPI_Reduce(&block->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
+    big_block_mpi_collect(block, comm);
     int rt;
     if(rank == 0) {
         /* only the root rank updates */
-        int i;
-        big_block_set_dirty(block, dirty);
-        for(i = 0; i < block->Nfile; i ++) {
-            block->fchecksum[i] = checksum[i];
-        }
         rt = big_block_flush(block);
     } else {
         rt = 0;
@@ -378,6 +393,8 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* the root keeps the checksums; other ranks count from here. */
+        memset(bb->fchecksum, 0, sizeof(bb->fchecksum[0]) * bb->Nfile);
     }
     free(buf);
     return 0;
-- 
2.43.0


From 4fba28ca3f7765560d19caa1e1bda3feb0e94a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 16/20] fix: collective transfers refuse what they cannot store
 and report every failure

---
 src/bigfile-mpi.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 8088b35..5bb29e0 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -436,6 +436,18 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     size_t totalsize = MPIU_Segmenter_collect_sizes(localsize, sizes, &myoffset, comm);
 
+    int rt = 0;
+    /* refuse as a whole, before any rank touches the block */
+    if(ptr->aoffset + totalsize > block->size) {
+        _big_file_raise("Transferring %td rows at %td is beyond the block `%s'", __FILE__, __LINE__,
+                totalsize, ptr->aoffset, block->basename);
+        rt = -1;
+    }
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        free(sizes);
+        return rt;
+    }
+
     /* try to create as many segments as number of groups (thus one segment per group) */
     avgsegsize = totalsize / concurrency;
 
@@ -448,7 +460,6 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     free(sizes);
 
-    int rt = 0;
     int segment;
 
     for(segment = seggrp->segment_start;
@@ -541,18 +552,24 @@ _aggregated(
     }
 
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
+        /* write nothing if any rank has nothing sensible to write */
+        e = big_file_mpi_broadcast_anyerror(e, comm);
     }
-    if(rank == root) {
-        big_block_seek_rel(block, ptr1, offset);
-        e = action(block, ptr1, garray);
+    if(rank == root && e == 0) {
+        e = big_block_seek_rel(block, ptr1, offset);
+        if(e == 0)
+            e = action(block, ptr1, garray);
     }
     if(action == big_block_read) {
+        e = big_file_mpi_broadcast_anyerror(e, comm);
+    }
+    if(action == big_block_read && e == 0) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        e = _dtype_convert(iarray, ilarray, localsize * block->nmemb);
     }
 
     if(rank == root) {
-- 
2.43.0


From 91a8445d89c8e557a464528c5e59eaef0fe290fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 17/20] fix: collective open and create release what they hold
 when they fail

---
 src/bigfile-mpi.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 5bb29e0..2c48c6f 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -50,7 +50,11 @@ int big_file_mpi_open(BigFile * bf, const char * basename, MPI_Comm comm) {
         rt = 0;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    int local = rt;
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
+    if(rt != 0 && local == 0) {
+        big_file_close(bf);
+    }
 
     return rt;
 }
@@ -67,7 +71,12 @@ int big_file_mpi_create(BigFile * bf, const char * basename, MPI_Comm comm) {
         bf->basename = _strdup(basename);
         rt = 0;
     }
-    BCAST_AND_RAISEIF(rt, comm);
+
+    int local = rt;
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
+    if(rt != 0 && local == 0) {
+        big_file_close(bf);
+    }
 
     return rt;
 }
@@ -198,14 +207,21 @@ _big_block_mpi_create(BigBlock * bb,
     int i;
     for(i = (size_t) bb->Nfile * rank / NTask; i < (size_t) bb->Nfile * (rank + 1) / NTask; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
-        if(fp == NULL) {
+        RAISEIF(fp == NULL,
+                ex_fileio,
+                NULL);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to close physical file %d of block `%s'", i, bb->basename);
+        continue;
+        ex_fileio:
             rt = -1;
             break;
-        }
-        fclose(fp);
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        _big_block_close_internal(bb);
+    }
 
     return rt;
 }
@@ -267,11 +283,16 @@ big_block_mpi_grow(BigBlock * bb,
     int i;
     for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i + oldNfile, "w", 1);
-        if(fp == NULL) {
+        RAISEIF(fp == NULL,
+                ex_fileio,
+                NULL);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to close physical file %d of block `%s'", i + oldNfile, bb->basename);
+        continue;
+        ex_fileio:
             rt = -1;
             break;
-        }
-        fclose(fp);
     }
 
     BCAST_AND_RAISEIF(rt, comm);
-- 
2.43.0


From 743190216fee86e85475ac6e1a9208ae21c24d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 18/20] fix: failures while reading attribute files are
 reported

---
 src/bigfile.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1a2f944..35d66b1 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1511,6 +1511,9 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
+        /* only a missing file means that there are no attributes */
+        RAISEIF(errno != ENOENT && errno != ENOTDIR, ex_open,
+            "Failed to open attribute file of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
     int nmemb;
@@ -1519,11 +1522,17 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     char * data = NULL;
     char * name = NULL;
     /* nothing in the file is longer than the file */
-    fseek(fattr, 0, SEEK_END);
-    long size = ftell(fattr);
-    fseek(fattr, 0, SEEK_SET);
+    long size = -1;
+    if(0 == fseek(fattr, 0, SEEK_END)) {
+        size = ftell(fattr);
+        RAISEIF(0 > fseek(fattr, 0, SEEK_SET), ex_fread, "fseek error: %s",strerror(errno));
+    }
     while(!feof(fattr)) {
-        if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
+        if(1 != fread(&nmemb, sizeof(int), 1, fattr)) {
+            /* a directory of this name holds another block */
+            RAISEIF(ferror(fattr) && errno != EISDIR, ex_fread, "Failed to read from file");
+            break;
+        }
         RAISEIF(
             (1 != fread(&lname, sizeof(int), 1, fattr)) ||
             (1 != fread(&dtype, 8, 1, fattr)) ||
@@ -1563,6 +1572,7 @@ ex_fread:
     free(data);
     attrset->dirty = 0;
     fclose(fattr);
+ex_open:
     return -1;
 }
 
@@ -1577,9 +1587,12 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
+        /* only a missing file means that there are no attributes */
+        RAISEIF(errno != ENOENT && errno != ENOTDIR, ex_open,
+            "Failed to open attribute file of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
-    fseek(fattr, 0, SEEK_END);
+    RAISEIF(0 > fseek(fattr, 0, SEEK_END), ex_init, "fseek error: %s",strerror(errno));
     long size = ftell(fattr);
     /*ftell may fail*/
     RAISEIF(size < 0, ex_init, "ftell error: %s",strerror(errno));
@@ -1587,7 +1600,7 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     RAISEIF(!buffer, ex_init, "Could not allocate memory for buffer: %ld bytes",size+1);
     unsigned char * data = (unsigned char * ) malloc(size + 1);
     RAISEIF(!data, ex_data, "Could not allocate memory for data: %ld bytes",size+1);
-    fseek(fattr, 0, SEEK_SET);
+    RAISEIF(0 > fseek(fattr, 0, SEEK_SET), ex_read_file, "fseek error: %s",strerror(errno));
     RAISEIF(size != fread(buffer, 1, size, fattr),
             ex_read_file,
             "Failed to read attribute file\n");
@@ -1649,6 +1662,7 @@ ex_data:
     free(buffer);
 ex_init:
     fclose(fattr);
+ex_open:
     return -1;
 }
 static int
-- 
2.43.0


From 766925a752044ffaad10ff7f7f34a521b3435df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 19/20] fix: splitting very many rows over files does not
 overflow

---
 src/bigfile-mpi.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 2c48c6f..2a9573e 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -115,8 +115,10 @@ big_file_mpi_create_block(BigFile * bf,
     size_t fsize[Nfile];
     int i;
     for(i = 0; i < Nfile; i ++) {
-        fsize[i] = size * (i + 1) / Nfile 
-                 - size * (i) / Nfile;
+        /* size * (i + 1) may be too large for size_t */
+        fsize[i] = size / Nfile
+                 + size % Nfile * (i + 1) / Nfile
+                 - size % Nfile * i / Nfile;
     }
     return _big_file_mpi_create_block(bf, block, blockname, dtype,
         nmemb, Nfile, fsize, comm);
@@ -306,8 +308,10 @@ big_block_mpi_grow_simple(BigBlock * bb, int Nfile_grow, size_t size_grow, MPI_C
     size_t fsize[Nfile_grow];
     int i;
     for(i = 0; i < Nfile_grow; i ++) {
-        fsize[i] = size_grow * (i + 1) / Nfile_grow
-                 - size_grow * (i) / Nfile_grow;
+        /* size_grow * (i + 1) may be too large for size_t */
+        fsize[i] = size_grow / Nfile_grow
+                 + size_grow % Nfile_grow * (i + 1) / Nfile_grow
+                 - size_grow % Nfile_grow * i / Nfile_grow;
     }
     int rank;
     MPI_Comm_rank(comm, &rank);
-- 
2.43.0


From d09bbdccfaa33f96314c573b0d0d3db34d7a1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 20/20] fix: very large concurrency limits do not overflow the
 group number of empty ranks

---
 src/mp-mpiu.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mp-mpiu.c b/src/mp-mpiu.c
index 2e460c5..bb4442f 100644
--- a/src/mp-mpiu.c
+++ b/src/mp-mpiu.c
@@ -442,7 +442,8 @@ MPIU_Segmenter_init(MPIU_Segmenter * segmenter,
          * if Nsegments < Ngroup, some groups will have no segments, and thus no ranks belong to them. */
         segmenter->GroupID = ((size_t) segmenter->ThisSegment) * Ngroup / segmenter->Nsegments;
     } else {
-        segmenter->GroupID = Ngroup + 1;
+        /* not a group of any rank with data; Ngroup + 1 may be too large for an int */
+        segmenter->GroupID = Ngroup;
         segmenter->ThisSegment = NTask + 1;
     }
 
-- 
2.43.0

