"""Which contracts and which driver decide which property."""
TRUSTED = [
    'clang 18 (C to LLVM IR at -O0) and opt mem2reg/simplification passes listed in vc/ir.py',
    'the verification condition generator in /verif/vc (symbolic execution, loop rule, contract rule)',
    'z3 5.x python bindings (linear and non-linear integer arithmetic, uninterpreted functions)',
]
PROPS = {}
def prop(pid, **kw):
    kw.setdefault('level', 'proof')
    if not kw.get('proofs'):
        kw['level'] = 'other'
        kw.setdefault('technique', 'bounded stand-in: the real code run on random cases against an independent oracle (contracts for this property not discharged yet)')
        kw.setdefault('note', 'bounded: not proved; random cases only')
        kw.setdefault('explanation', 'No contract of this property is discharged on this tree; the check is the labelled bounded stand-in (see bounded_stand_in): the real code is run on random cases and compared with an independent oracle.')
    PROPS[pid] = kw

ARITH = 'row counts and sizes are below 2^48, so 64-bit sums do not wrap; every 32-bit wrap is modelled exactly'

prop('P01', proofs=[('specs_seek', 'Seek'), ('specs_seek', 'SeekRel'), ('specs_seek', 'Eof')],
     driver=dict(src='p01.c', secs=6),
     assumptions=[ARITH, 'blocks are well formed: size, fsize and foffset agree (established by create, grow and open, see P07/P08)'])

prop('P05', proofs=[('specs_array', 'IterAdvance'), ('specs_array', 'IterInit'), ('specs_array', 'ArrayInit')],
     driver=dict(src='p05.c', secs=6), where={'big_file_dtype_itemsize': 'P20', '_dtype_normalize': 'P20'},
     assumptions=['every dimensionality the data structure allows (1 to 32) is a case of its own; extents, strides and indices are arbitrary',
                  'the array lies in the address space: byte distances and element counts are below 2^62',
                  'row-major order is the lexicographic order of index vectors: one step advances the last index that can advance and restarts those after it'])
prop('P20', proofs=[('specs_array', c) for c in ('NormalizeSym', 'NormalizeTwice', 'ItemsizeSym', 'KindSym', 'Valid')],
     driver=dict(src='p20.c', secs=6),
     assumptions=['little-endian machine (the byte order probe is executed symbolically)', 'atoi and strncpy behave as the C standard says',
                  'type strings of every length up to one more than the eight bytes the functions look at; every character arbitrary'])

STORE = ['the data files of a block are one ghost store: byte b of file k is byte foffset[k]*width + b; fseek, fread, fwrite and fclose on a handle act on it as the C standard says, and each may fail',
         'fopen of the path of data file k (the path is decided under P21) gives a handle of file k',
         'element types and byte orders are enumerated as cases; rows, positions, counts, file tables, members per row, buffer size and array layout are arbitrary',
         'byte positions of the block are below 2^62', 'the array does not overlap the block structure']
WHERE = {'_dtype_convert': 'P06', 'big_array_iter_init': 'P05 (there on index vectors)', 'big_file_dtype_itemsize': 'P20', '_dtype_normalize': 'P20', 'big_array_init': 'P05',
         'big_block_seek_rel': 'P01', 'big_block_eof': 'P01', '_big_file_open_a_file': 'P21', 'sysvsum': 'P11', '_path_join': 'P21'}
prop('P02', proofs=[('specs_io', 'Write')], driver=dict(src='p02.c', secs=8), where=WHERE, assumptions=[ARITH] + STORE)
prop('P03', proofs=[('specs_io', 'Read'), ('specs_simple', 'ReadSimple')], driver=dict(src='p03.c', secs=8), where=WHERE, assumptions=[ARITH] + STORE)
prop('P04', proofs=[('specs_io', 'WriteRefuse'), ('specs_io', 'ReadRefuse')], driver=dict(src='p04.c', secs=8, wraps=['fopen', 'fopen64', 'open']), where=WHERE, assumptions=[ARITH] + STORE)

prop('P06', proofs=[('specs_conv', c) for c in ('Cast', 'CastBad', 'ByteSwap', 'Convert', 'ConvertSimple')],
     where={'big_array_iter_advance': 'P05 (on index vectors; here in terms of the row-major element number)', 'big_array_iter_init': 'P05 (likewise)', 'big_array_init': 'P05', 'big_file_dtype_itemsize': 'P20', '_dtype_normalize': 'P20'},
     assumptions=['little-endian machine', 'source and destination do not overlap', 'element types and byte orders are enumerated as cases; element values, counts, positions and the layout of strided arrays are arbitrary',
                  'the elements of a strided array do not overlap one another',
                  'float to integer conversions are those of the machine instruction (uninterpreted, the same in code and specification); integer and floating widening/narrowing follow C'],
     driver=dict(src='p06.c', secs=8))

BLK = ['row counts of a block add up to at most 2^48, so 64-bit sums do not wrap', 'allocations whose size is a constant or the length of a name succeed; tables may fail to be allocated', 'names are shorter than 8192 characters',
       'the type strings that are accepted, and their normal form, are functions of the string (decided under P20)']
HDR = ['a header is a text file: fprintf appends the formatted line or fails, fscanf reads it back as the C standard says (numbers and words up to the next blank); printing a number and scanning it is the identity', 'the attribute files are read and written by calls of their own (P10)']
BWHERE = {'_strdup': 'P13', '_dtype_normalize': 'P20', 'dtype_isvalid': 'P20', '_big_file_open_a_file': 'P21', 'attrset_write_attr_set_v2': 'P10', 'attrset_read_attr_set_v1': 'P10', 'attrset_read_attr_set_v2': 'P10',
          'big_block_flush': 'P08', '_path_join': 'P21', '_big_file_mkdir': 'P21', '_big_file_mksubdir_r': 'P21', '_big_block_open': 'P08', '_big_block_create': 'P07', '_big_block_create_internal': 'P07', '_big_block_grow_internal': 'P07', '_big_block_close_internal': 'P08'}
prop('P07', proofs=[('specs_block', 'GrowInternal'), ('specs_block', 'Grow'), ('specs_block', 'CreateInternal'), ('specs_block', 'Create'), ('specs_file', 'CreateBlock')], where=BWHERE,
     assumptions=BLK + ['opening a data file for writing truncates it; each opening and closing may fail'], driver=dict(src='p07.c', secs=8))
prop('P08', proofs=[('specs_block', 'Flush'), ('specs_block', 'Open'), ('specs_file', 'CloseInternal'), ('specs_file', 'Close'), ('specs_file', 'OpenBlock')], where=BWHERE,
     assumptions=BLK + HDR + ['the two halves of the round trip meet in the text of the header: flush is proved to write, and open is proved to read, the same lines'], driver=dict(src='p08.c', secs=8, wraps=['fopen', 'fopen64', 'fclose']))

prop('P09', proofs=[], driver=dict(src='p09.c', secs=8))
prop('P10', proofs=[], driver=dict(src='p10.c', secs=8))
prop('P25', proofs=[], driver=dict(src='p25.c', secs=5))

REC = ['a field table of any length; names, types, members and layout of every field arbitrary', 'the record is narrower than 2^31 bytes; names are shorter than 8192 characters', 'realloc and small allocations succeed']
prop('P13', proofs=[('specs_record', c) for c in ('Complete', 'RecordSet', 'RecordGet', 'ViewField', 'TypeSet', 'TypeAdd', 'TypeClear')] + [('specs_path', 'Strdup')],
     where={'big_file_dtype_itemsize': 'P20', 'big_array_init': 'P05', '_strdup': 'here'}, assumptions=REC, driver=dict(src='p13.c', secs=5))
prop('P14', proofs=[('specs_record', c) for c in ('WriteRecords', 'ReadRecords', 'CreateRecords', 'MpiWriteRecords', 'MpiReadRecords', 'MpiCreateRecords')],
     assumptions=REC + ['calls on blocks are recorded in ghost tables; that opening, creating, growing, seeking, writing, reading and closing a block do what they say is decided under P01-P04, P07, P08 (the collective forms under P12, P15, P16, P17), and the field view under P13', 'each of these calls may fail',
                        'mode strings of up to four arbitrary characters (longer ones differ from both known modes in the same way)'], driver=dict(src='p14.c', secs=8))

prop('P21', proofs=[('specs_path', 'PathJoin'), ('specs_path', 'OpenFileBody'), ('specs_path', 'Mkdir')] + [('specs_file', c) for c in ('MakeDirs', 'OpenFile', 'CreateFile', 'CloseFile', 'OpenBlock', 'CreateBlock')], where=dict(WHERE, **BWHERE),
     assumptions=['strings are arbitrary texts; formatting a number with %06X is injective (six or more upper-case hexadecimal digits)', 'fopen, mkdir and stat may fail; small allocations succeed'], driver=dict(src='p21.c', secs=6, wraps=['fopen', 'fopen64', 'mkdir']))
prop('P22', proofs=[], driver=dict(src='p22.c', secs=8, leaks=True))

prop('P18', proofs=[('specs_block', c) for c in ('Flush', 'Open', 'OpenAny', 'CreateInternal', 'Create', 'Grow')] + [('specs_file', c) for c in ('Close', 'OpenFile', 'CreateFile', 'OpenBlock', 'CreateBlock', 'MakeDirs')]
     + [('specs_path', 'OpenFileBody'), ('specs_path', 'Mkdir'), ('specs_io', 'Write'), ('specs_io', 'Read')], where=dict(WHERE, **BWHERE),
     assumptions=BLK + STORE + HDR + ['every call of the operating system listed here may fail at every place it is made', 'a handle closed with fclose is released whether or not fclose fails'], driver=dict(src='p18.c', secs=10, defs=[], wraps=['fopen', 'fopen64', 'fclose', 'fseek', 'ftell', 'fread', 'fwrite', 'fprintf', 'fputs', 'mkdir', 'malloc', 'calloc', 'realloc', 'free', 'ferror']))

prop('P19', proofs=[('specs_block', 'OpenAny')], where=BWHERE,
     assumptions=BLK + ['the header is a file of arbitrary content: every fscanf finds any number and any word its width allows, or stops early', 'attribute files of arbitrary content are decided by the bounded stand-in only'], driver=dict(src='p19.c', secs=10))

COMM = ['the MPI calls used (Comm_rank, Comm_size, Barrier, Bcast, Allreduce, Reduce) do what the MPI standard says and do not fail; at most 2^20 processes',
        'two processes are composed: the one the collective step turns on (the root or the failing one) and an arbitrary other one (vc/glue_mpi.c runs the same function once for each); any further process takes the steps of the second',
        'every process is given the same arguments, as collective calls require', 'a broadcast block description is smaller than 2^31 bytes']
MWHERE = {'big_file_mpi_broadcast_anyerror': 'P16', 'big_block_mpi_broadcast': 'P12', '_big_attrset_pack': 'P12', '_big_attrset_unpack': 'P12', 'big_block_flush': 'P08', '_big_block_open': 'P08', '_big_block_create_internal': 'P07', '_big_block_grow_internal': 'P07',
          '_big_file_open_a_file': 'P21', '_big_file_mksubdir_r': 'P21', '_strdup': 'P13', '_big_block_close_internal': 'P08', 'big_file_open': 'P21', 'big_file_create': 'P21', 'big_file_close': 'P21'}
MP = lambda *l: [('specs_mpi', c) for c in l]


prop('P11', proofs=[('specs_io', 'SysvSum'), ('specs_io', 'WriteSums'), ('specs_block', 'Flush')] + MP('FlushPair', 'GrowPair', 'ClosePair'), where=dict(WHERE, **dict(BWHERE, **MWHERE)),
     assumptions=[ARITH, 'the sum of the stored bytes is kept in a ghost table per file'] + STORE + COMM, driver=dict(src='p11.c', mpi=True, secs=15, runs=[[1], [3], [4]]))
prop('P12', proofs=[('specs_pack', 'RoundTrip')] + MP('BroadcastPair', 'OpenBlockPair', 'CreateBlocksPair', 'GrowPair', 'FlushPair'), where=MWHERE,
     assumptions=COMM + BLK + ['names are shorter than 8192 characters; names and values of all attributes together take less than 2^31 bytes; allocations succeed', 'packing and unpacking are verified as one composition (vc/glue.c calls the two functions of the tree, and takes the source out of reach in between); an attribute is a record of members, type and the places of its name and data in the buffer'],
     driver=dict(src='p12.c', mpi=True, secs=15, runs=[[1], [3], [2]]))
prop('P15', proofs=MP('SplitCreate', 'SplitGrow', 'CreateBlocksPair', 'GrowPair'), where=dict(BWHERE, **MWHERE), assumptions=BLK + COMM, driver=dict(src='p15.c', mpi=True, secs=15, runs=[[3], [5], [2], [1]], wraps=['fopen', 'fopen64']))

FAULTS = ['fopen', 'fopen64', 'fclose', 'fseek', 'ftell', 'fread', 'fwrite', 'fprintf', 'fputs', 'mkdir', 'malloc', 'calloc', 'realloc', 'free', 'ferror']
prop('P16', proofs=MP('AnyErrorPair', 'BroadcastPair', 'FileOpenPair', 'FileCreatePair', 'FileClosePair', 'OpenBlockPair', 'CreateBlocksPair', 'GrowPair', 'FlushPair', 'ClosePair') + [('specs_record', 'MpiWriteRecords'), ('specs_record', 'MpiReadRecords'), ('specs_record', 'MpiCreateRecords')],
     where=dict(BWHERE, **MWHERE), assumptions=BLK + COMM, driver=dict(src='p16.c', mpi=True, secs=20, runs=[[3], [2], [5]], wraps=FAULTS))
RANKS = ['the MPI calls used do what the MPI standard says and do not fail; at most 2^20 processes; sizes of all ranks add up to at most 2^48',
         'one arbitrary rank is verified; what the others contribute to a collective step is what the same code contributes there (its own contribution is required to be the value at its rank of a function of the rank)']
prop('P17', proofs=[('specs_coll', c) for c in ('Throttle', 'Aggregated', 'MpiWrite', 'MpiRead')] + [('specs_seg', c) for c in ('CollectSizes', 'SegInit', 'SegDestroy')] + [('specs_seek', 'SeekRel')],
     where=dict(WHERE, **dict(MWHERE, _MPIU_Segmenter_assign_colors='P23', MPIU_GetLoc='P23', _aggregated='here', MPIU_Segmenter_init='here', MPIU_Segmenter_collect_sizes='here', MPIU_Segmenter_destroy='here',
                             big_block_write='P02', big_block_read='P03', _throttle_action='here')),
     assumptions=RANKS + ['the rows of one segment are fewer than 2^31 (MPI counts are ints; the code does not check it)', 'every rank gives the same block, position and limits, and an array of as many elements as its rows need; allocations succeed',
                          'that the local transfer stores or fetches the rows of its array at its position is decided under P02 and P03; the element types of the block are enumerated as cases',
                          'the position and order of processes in a segment are those SegInit proves; that the joined pieces of a segment are a run of the joined data is a lemma proved by induction on the rank'],
     driver=dict(src='p17.c', mpi=True, secs=15, runs=[[3], [5], [2]]))
prop('P23', proofs=[('specs_seg', c) for c in ('AssignColors', 'CollectSizes', 'GetLoc', 'SegInit', 'SegDestroy')], where={'_MPIU_Segmenter_assign_colors': 'here', 'MPIU_GetLoc': 'here'},
     assumptions=RANKS + ['MPI_Comm_split orders ties by rank'], driver=dict(src='p23.c', mpi=True, secs=16, runs=[[4], [7], [2], [1]]))
prop('P24', proofs=[('specs_xchg', c) for c in ('Alltoallv', 'Sparse', 'Gather', 'Scatter')], where={'MPI_Alltoallv_sparse': 'here', 'mpiu_malloc': 'hook'},
     assumptions=RANKS + ['messages of one pair of ranks with one tag are delivered in the order they are sent, to the buffers given; MPI_Alltoallv, MPI_Gatherv and MPI_Scatterv move the items their tables name',
                          'what one rank sends or receives in all is fewer than 2^31 items; element sizes fit an int; allocations succeed', 'a rank posts at most one message of a kind for each rank: that these are at most as many as there are ranks is used as a fact (distinct peers are proved)',
                          'mpiu_malloc allocates what it is asked for (the user can replace it; the default is malloc)'],
     driver=dict(src='p24.c', mpi=True, secs=16, runs=[[3], [5], [4], [1]]))

NA = {
    'P26': 'the subject is Cython/Python code driving NumPy; the contracts and the verifier work on the C sources, and no deductive verifier for Cython is installed. The C calls below it are decided under P02-P06.',
    'P27': 'a contract relates the state before a call to the state after it returns; a crash inside the call, and what the kernel then persists, is not expressible in it (it would need a crash-Hoare logic with a file system model). The code itself makes no such promise: headers and attribute files are rewritten in place.',
    'P28': 'the verifier is sequential: it has no model of interleaved threads or of the compare-and-swap used for the shared message. Sequential use of the message is covered by P16 and P18.',
    'P29': 'whole command line programs with MPI work distribution, option parsing and their own I/O loops; no function-level contract states the result of a run, and main programs are outside the translation units under contract. The library calls they make are decided under P02-P17.',
}
