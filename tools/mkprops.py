import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,**kw):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="src/bigfile.c"; M="src/bigfile-mpi.c"; U="src/mp-mpiu.c"; R="src/bigfile-record.c"
add("P01","Seeking maps every row number to the one file and row that hold it",
"Seeking to row r of a block (0 <= r <= size) succeeds and yields the physical file whose row range contains r and the offset of r inside it; a negative r counts from the end and r == size is the valid end position. A relative seek lands where the absolute seek to the sum would land, and end-of-block is reported exactly when the position is at or past the last row. Seeking past the end fails, leaves the position unchanged and changes nothing else.",
["inputs"],"Every block layout (any number of physical files, any mixture of sizes including empty files, empty blocks), every position and every signed offset that does not overflow.",
"Tests seek in a handful of layouts with 1-3 equally sized files; the binary search must be right for every prefix-sum table, including runs of empty files and both ends.",
[B],"big_block_seek (binary search over foffset), big_block_seek_rel, big_block_eof",[("foffset","prefix sums of file sizes, Nfile+1 entries"),("BigBlockPtr","file id, row in file, absolute row")])
add("P02","A write stores exactly the requested rows, in order, and nothing else",
"After a successful write of n rows at position p, rows p..p+n-1 of the block hold the n rows of the array in order, every physical byte outside those rows is untouched, and the position has advanced by n rows. This holds for every split of the block into physical files and every internal buffer size that can hold at least one row. The block is marked as modified so that its metadata is saved.",
["inputs","configurations"],"All layouts, start rows, lengths, row widths, buffer sizes; the loop over chunks and files runs any number of iterations.",
"Tests write whole columns with the default 64 MB buffer, so chunking inside one file and unaligned chunk/file boundaries are never exercised together.",
[B],"big_block_write: chunk loop, per-chunk fseek/fwrite with roffset*felsize, big_block_seek_rel by the chunk length",[("CHUNK_BYTES","global buffer size")])
add("P03","A read returns exactly the requested rows, in order",
"A successful read of n rows at position p fills the array with rows p..p+n-1 of the block in order, wherever physical file boundaries and internal buffer boundaries fall, writes nothing outside the array's elements, leaves the stored files unchanged and advances the position by n rows. The allocating read helper returns min(requested, rows remaining) rows and reports that count.",
["inputs","configurations"],"All layouts, start rows, lengths, row widths, buffer sizes, number of chunk iterations.",
"Tests read a few small columns with the default buffer, so at most one chunk per file is ever read.",
[B],"big_block_read chunk loop; big_block_read_simple clamping",[("toread","rows still to read")])
add("P04","Requests outside the block are refused without side effects",
"A read or write whose rows would extend past the end of the block returns an error before any physical file is touched or any array element is read or written. A block with rows of zero width or an internal buffer smaller than one row makes reads and writes fail instead of crashing or running forever. No request on a well-formed block makes the library access memory outside the caller's array, its own buffers or the block's tables.",
["inputs"],"Every well-formed block, position, array shape and buffer size, including degenerate ones.",
"Tests try one or two over-long requests; memory safety and termination over all shapes and sizes cannot be sampled.",
[B],"range check at the top of big_block_read/big_block_write, chunk_size computation, seek range check")
add("P05","Array traversal visits the elements of any strided array in row-major order",
"Stepping a fresh array iterator k times places it at the address of the k-th element in row-major order, data + sum of index*stride, for every dimensionality, shape and byte strides (including negative, zero, overlapping, and non-contiguous ones). The fast contiguous path is taken only when it visits the same addresses, and default strides describe a packed C-ordered array. Iteration changes only the iterator.",
["inputs"],"All ndim from 1 to 32, all shapes, all strides, all step counts.",
"Tests only use 1-d and 2-d arrays, nearly all contiguous.",
[B],"big_array_init, big_array_iter_init (contiguity detection), big_array_iter_advance (carry propagation)",[("pos","multi-index"),("contiguous","fast path flag")])
add("P06","Type conversion is value-correct in both byte orders and preserves its source",
"Copying n elements between arrays of supported types assigns each destination element the C conversion of the matching source element, with stored bytes in the declared byte order of each side; equal types are copied bit for bit. Complex numbers convert both parts. The source memory is left bit-for-bit unchanged, exactly n elements of the destination change, both iterators advance by n, and an unsupported pair fails.",
["inputs"],"All type pairs, both byte orders on each side, all element values, any n, contiguous and strided layouts.",
"Tests convert a few positive values between native types and compare destinations only.",
[B],"_dtype_convert, byte_swap, cast and its CAST tables, dtype_convert_simple")
add("P07","Creating or growing a block gives the exact requested layout, keeps old files",
"A created block has exactly the requested number of physical files with the requested row counts, total size equal to their sum, zero checksums and empty files on disk. Growing appends files after the existing ones and keeps every existing file's size, checksum, contents and row positions; only the newly added files are created or truncated. Names containing blanks are refused.",
["inputs"],"Any number of files, any sizes, any sequence of creations and growths.",
"Tests create and grow with one or two files; prefix sums and index arithmetic for all file counts and the untouched-old-files guarantee are not observable from those.",
[B],"_big_block_create_internal, _big_block_create, _big_block_grow_internal, big_block_grow",[("fsize/foffset/fchecksum","per-file tables")])
add("P08","Flushed block metadata is reopened unchanged",
"After a successful flush or close, opening the block again yields the same element type, members per row, number of files, per-file sizes, per-file checksums and total size. A flush that writes nothing happens only when nothing changed since the last successful flush, and a failed flush leaves the block marked as still needing to be saved.",
["inputs","histories"],"All block descriptions, all sequences of modification and flush.",
"Tests reopen a few columns; equality of every header field for every layout and the dirty-flag protocol are not sampled.",
[B],"big_block_flush (fprintf of the header) against _big_block_open (fscanf of the header); dirty flags")
add("P09","Attributes behave as a map from names to typed arrays",
"Setting an attribute makes a later get return the set values converted to the requested type; it replaces any previous value of that name and leaves all other attributes unchanged, however many attributes there are and however large they are. Removing deletes exactly the named one and fails if it is absent; lookup finds a name if and only if it is present; listing gives every attribute once in name order. Reading with a wrong element count fails, names that are empty or contain blanks are refused, and every change marks the set as needing to be saved.",
["inputs","histories"],"All histories of set/get/remove/lookup/list, all names and values, across internal buffer growth.",
"Tests set a handful of small attributes; buffer growth with pointer relocation, sorting and removal in the middle combine only in long histories.",
[B],"attrset_set_attr, attrset_add_attr (growth with pointer relocation, qsort), attrset_append_attr, attrset_lookup_attr (bsearch), attrset_remove_attr, attrset_get_attr",[("attrbuf/attrlist","name+value bytes; sorted descriptors pointing into them")])
add("P10","Attributes saved to disk are read back identical",
"After a successful save, reopening the block yields the same set of attributes with the same names, types, element counts and value bytes. The textual form writes every value byte as two hexadecimal digits that decode to the same byte, and the human-readable comment never alters what is read back.",
["inputs"],"All attribute sets, all byte values, all lengths.",
"Tests round-trip a few ASCII strings and small numbers; all byte values and lengths (short and over 128 bytes) are not covered.",
[B],"attrset_write_attr_set_v2 (hex encoding) against attrset_read_attr_set_v2 (tokenizer, hex decoding)")
add("P11","Each file's checksum is the System V sum of the bytes written to it",
"Every write adds to a file's checksum, modulo 2^32, exactly the sum of the bytes stored in that file and leaves the other files' checksums alone. The metadata records that sum and its standard System V 16-bit folding. Under MPI the saved checksum is the sum over all ranks of what each has written, with nothing counted twice no matter how often the block is flushed.",
["inputs","histories"],"All data, sizes, chunkings, numbers of ranks and numbers of flushes.",
"Tests never compare the stored checksums with an independent computation, and not after several collective flushes.",
[B,M],"sysvsum, its call in big_block_write, the folding in big_block_flush, MPI_Reduce in big_block_mpi_flush",[("fchecksum","unreduced per-file sums")])
add("P12","Handing a block to other processes reproduces it exactly on every rank",
"The serialized form of a block, when decoded, gives a block with the same name, element type, sizes, per-file tables, dirty state and attributes (same names, types, counts and bytes), sharing no memory with the original. After a collective open, create, grow or flush, every rank holds the same description of the block as the root; checksums already collected are kept by the root alone and the other ranks count from zero.",
["inputs"],"All blocks, including blocks without files and blocks with any attributes; all communicator sizes and ranks.",
"Tests use one or two small attributes and few files; offset relocation and size bookkeeping over all sizes is not sampled.",
[B,M],"_big_block_pack, _big_block_unpack, _big_attrset_pack, _big_attrset_unpack, big_block_mpi_broadcast")
add("P13","Record types lay fields out back to back without overlap",
"Completing a record type places field k at the total width of fields 0..k-1 and makes the record width the total of all field widths. Storing a field of record i changes exactly that field's bytes in that record and fetching it returns them; a field view addresses exactly that field of records 0..n-1. Defining a field by index keeps all other fields' definitions.",
["inputs"],"Any number, order and redefinition of fields, any types and member counts, any record index.",
"Tests build one record type with a few fields.",
[R],"big_record_type_set/add/complete, big_record_set/get, big_record_view_field",[("offset/elsize/itemsize","byte layout of the record")])
add("P14","Record input and output keep each field in the block of its own name",
"Writing n records at row p stores field k of the records as rows p..p+n-1 of the block named after field k and closes it, touching no other block; reading is the inverse. Creating makes one block per field with the requested layout, appending grows each, and any other mode or any failing step returns an error instead of success.",
["inputs"],"Any record type, any number of fields, any offset, count and mode, any failing step.",
"Tests round-trip one record type on the success path only.",
[R,M],"big_file_create_records, big_file_write_records, big_file_read_records and their collective versions")
add("P15","Collective creation splits rows and files so that each is covered exactly once",
"Splitting n rows over F files gives F non-negative sizes that sum to exactly n and differ by at most one, for creation and for growth. Across all ranks every new physical file is created by exactly one rank and no existing file is touched.",
["inputs","configurations"],"All row counts, file counts and communicator sizes within the arithmetic range.",
"Tests use 1-4 ranks and a few sizes; the floor-division partition must telescope for every combination.",
[M],"big_file_mpi_create_block, big_block_mpi_grow_simple, rank ranges in _big_block_mpi_create and big_block_mpi_grow")
add("P16","Collective calls agree on success or failure on every rank",
"If any rank fails inside a collective call, every rank of the communicator returns the same non-zero error code and has an error message; if none fails, every rank returns success. No rank skips a collective step that the others perform, so a failure never leaves ranks waiting for each other.",
["inputs","fault_sequences","schedules"],"All communicator sizes, all subsets of failing ranks, all error codes.",
"Tests provoke failures on one rank at most; the agreement must hold for any subset of failing ranks.",
[M],"big_file_mpi_broadcast_anyerror and its use in every collective function")
add("P17","Collective reads and writes equal the serial operation on the joined data",
"A collective write of local pieces at a position stores the concatenation of the pieces in rank order from that position, and a collective read gives each rank its own piece of the same concatenation. The result does not depend on the concurrency limit, the aggregation threshold or which rank performs the transfer, and afterwards every rank's position has advanced by the total number of rows.",
["inputs","configurations","schedules"],"All piece sizes (including empty pieces), all communicator sizes, concurrency limits and thresholds.",
"Tests use equal pieces on a few ranks; offsets and gather displacements must be right for every uneven distribution.",
[M,U],"_throttle_action, _aggregated, MPIU_Segmenter_collect_sizes",[("recvcounts/recvdispls","gather layout within a segment")])
add("P18","Failures of the operating system are reported and nothing is leaked",
"When opening, seeking, reading or writing a physical or metadata file fails, closing one that was written fails, or a transfer is short, the operation returns an error and records an error message; it never reports success for data or metadata that was not stored. Every file handle and temporary buffer acquired during the operation is released exactly once on every path.",
["inputs","fault_sequences"],"Every choice of failing call at every iteration of every operation.",
"Tests run on a healthy file system; each call site's failure at each iteration would need fault injection.",
[B],"RAISEIF chains and cleanup labels in big_block_read/write/flush/open/create/grow and the attribute readers and writers")
add("P19","Opening damaged metadata fails cleanly",
"Opening a block whose header or attribute file is arbitrary bytes either succeeds with a consistent description (row table matching the total size, valid type, attributes well formed) or returns an error; a header that names a file outside its file count, a negative size or count, an unsupported type, or sizes whose sum overflows is refused. It never reads or writes outside its buffers, and never hangs.",
["inputs"],"All contents of the header and attribute files, of any length.",
"Tests only open files the library wrote; a parser must be safe for every byte sequence.",
[B],"_big_block_open header parser, attrset_read_attr_set_v1, attrset_read_attr_set_v2")
add("P20","Type strings normalize to an explicit byte order and keep kind and width",
"Normalizing a type string yields an explicit byte-order mark (native when absent, '=' or '|') followed by the kind and width of the input, always terminated within eight bytes; it is idempotent. The reported kind and item size are those of the string whether or not a byte-order mark is given. A type is accepted for a block only if its kind is known and its width is between 1 and 16.",
["inputs"],"All type strings.",
"Tests use about ten type strings.",
[B],"_dtype_normalize, big_file_dtype_itemsize, big_file_dtype_kind, dtype_isvalid")
add("P21","Names map to distinct paths inside the file and parents are created first",
"Each physical data file, header and attribute file of a block is accessed at the block's directory joined with its own fixed name (data file number as six upper-case hexadecimal digits), different files never share a path, and joining adds exactly one separator when needed. Creating a block or file makes every missing ancestor directory from the outermost inward, treats existing directories as success, and reports any other failure.",
["inputs"],"All names, depths and file numbers.",
"Tests use short names at depth one or two with few files.",
[B],"_path_join, _big_file_open_a_file, _big_file_mkdir, _big_file_mksubdir_r")
add("P22","Listing returns every block exactly once",
"Listing a file returns the relative name of every block in the directory tree at any depth exactly once, and nothing that is not a block; hidden entries are skipped and blocks are not descended into. The reported count matches the returned names.",
["inputs"],"All directory trees.",
"Tests list one small flat or two-level tree.",
[B],"listbigfile_r, filter, _big_file_path_is_block, big_file_list")
add("P23","Work segments for collective transfers cover every rank with data exactly once",
"Dividing ranks into segments gives every rank that holds data exactly one segment number; segment numbers are contiguous from zero, never decrease with rank, and all ranks compute the same division. Groups own contiguous, disjoint ranges of segments that together are all segments holding data, so every such segment is processed exactly once, and each chosen leader is a member of its segment holding the least data.",
["inputs","configurations"],"All size distributions, thresholds, group counts and communicator sizes.",
"Tests see a few distributions on at most four ranks.",
[U],"_MPIU_Segmenter_assign_colors, MPIU_Segmenter_init, MPIU_GetLoc")
add("P24","All-to-all, gather and scatter helpers deliver every item to its place",
"The all-to-all exchange delivers to each rank, from every rank, exactly the items addressed to it at the given or default displacements, identically under the dense, sparse and automatic policies, and reports the total to receive when no buffer is given. Gather and scatter concatenate and split pieces in rank order with any piece sizes.",
["inputs","configurations","schedules"],"All counts, displacements, element sizes, communicator sizes and policies.",
"No existing test calls these helpers with uneven counts on a non-power-of-two number of ranks.",
[U],"MPIU_Alltoallv, MPI_Alltoallv_sparse, MPIU_Gather, MPIU_Scatter")
add("P25","Attribute text formatting and parsing agree",
"Formatting a value of a supported type as text with the default format renders that value whatever byte order it is stored in, and parsing text into a type stores the value in that type's byte order; an unsupported type is refused when parsing. Neither touches memory beyond one item.",
["inputs"],"All supported types, both byte orders, all values.",
"Tests print a few native values.",
[B],"big_file_dtype_format, big_file_dtype_parse")
add("P26","The Python column object reads and writes the rows a NumPy index names",
"Indexing a column with an integer, a slice or an array of rows returns what indexing the whole column as a NumPy array would return. Writing rows and reading them back through the Python objects gives the same values.",
["inputs"],"All index expressions and column shapes.",
"Tests index a few slices.",
["bigfile/pyxbigfile.pyx","bigfile/__init__.py"],"Column.__getitem__, FileMPI/ColumnMPI, Dataset")
add("P27","A crash at any point leaves previously saved data readable",
"If the process stops at any point during a write, flush, grow or attribute update, every row and attribute saved by an earlier successful flush can still be opened and read.",
["crash_points"],"Every crash point of every operation.",
"Tests never crash.",
[B],"big_block_flush and attrset_write_attr_set_v2 truncate the metadata file in place before rewriting it")
add("P28","Concurrent use from several threads never corrupts the shared error message",
"When several threads raise errors at the same time, the last error message is always one complete message, each message is freed once, and a retrieved message stays valid while it is used.",
["schedules"],"All interleavings of error-raising threads.",
"Tests are single-threaded.",
[B],"big_file_set_error_message (atomic exchange), _big_file_raise, big_file_get_error_message")
add("P29","Command line tools copy and transform blocks without changing their contents",
"Copying, joining, repartitioning or sampling blocks with the command line programs yields blocks with the same rows, types and attributes, whatever the numbers of files and ranks.",
["inputs","configurations"],"All blocks and option combinations.",
"There are no tests of the tools other than the I/O simulator.",
["utils/bigfile-copy.c","utils/bigfile-copy-mpi.c","utils/bigfile-join.c","utils/bigfile-sample-mpi.c","utils/bigfile-repartition"],"main programs and shell scripts of utils/")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert len(p['title'])<=80,p['id']
print(len(P))
