"""The properties: text, and the contract units that decide each of them."""
TEST = 'The shell tests store and fetch a few small files once, in one order, without faults; '
def P(title, statement, over, text, why, files, mech, units=(), na=None, note='', state=(), scenarios=()):
    return dict(title=title, statement=statement, over=over, text=text, why=TEST + why, files=files, mech=mech,
                units=list(units), na=na, note=note, state=list(state), scenarios=list(scenarios))
PROPS = {
'C01': P('Index entries survive the round trip', 'Whatever is entered in the index for an object (identifier, flags, silo number, offset, prefix of the next segment) is exactly what a lookup later reports for it, for every legal identifier, in upper or lower case, and every value of the other fields. Each insertion appends exactly one whole entry and leaves all others untouched.',
    ['inputs', 'configurations'], 'all identifiers of 16 to 64 hex digits, all flag, silo, offset and continuation values',
    'identifiers in them come from a handful of SHA256 values, offsets are small and silo numbers below ten.',
    ['index.c'], [('IDX_Insert', 'index.c'), ('idx_key_bin', 'index.c'), ('IDX_Iter', 'index.c')],
    ['idx_insert', 'idx_iter', 'idx_filename']),
'C02': P('Housekeeping preserves every index entry', 'Housekeeping leaves the sorted index holding exactly the set of entries that were in the sorted index and in the appendix before, in ascending order. Whatever step it is interrupted at, every entry is still found in one of the index files, and the next housekeeping completes the work. It never replaces the sorted index after a failed read or write.',
    ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'all contents and sizes of the sorted index and the appendix, every sequence of system calls made, and failing reads, writes and opens',
    'they housekeep a dozen entries and are never interrupted.',
    ['index.c'], [('idx_merge', 'index.c'), ('idx_attempt_merge', 'index.c'), ('IDX_Resort', 'index.c')],
    ['idx_merge', 'idx_attempt', 'idx_resort', 'idx_filename', 'bucket_new', 'bucket_update', 'bucket_write', 'bucket_skip', 'idx_merge_io', 'bucket_write_io']),
'C03': P('Lookups find every matching entry', 'Looking up an identifier, or a prefix of it such as the index uses to chain segments, reports every entry in any of the index files that matches it, and no entry that does not. The bucket table in the sorted index only ever lets a lookup start at or before the first match.',
    ['inputs', 'histories'], 'all sorted indexes of any size, all bucket tables produced by housekeeping, all full identifiers and prefixes of at least seven digits, any number of entries in the other index files',
    'bucket tables only become effective with far more entries than they store.',
    ['index.c'], [('IDX_Iter', 'index.c'), ('bucket_seek', 'index.c'), ('bucket_update', 'index.c')],
    ['idx_iter', 'bucket_seek', 'bucket_seek_nomatch', 'bucket_update', 'bucket_new', 'bucket_write', 'bucket_skip', 'bucket_lemma', 'idx_merge']),
'C04': P('Only well formed identifiers are accepted', 'An identifier is accepted exactly if, after removing the configured prefix when present, it consists of precisely the configured number of hex digits. What is handed on is that bare identifier.',
    ['inputs', 'configurations'], 'all strings, all prefixes and identifier sizes',
    'they try a few malformed identifiers.', ['index.c'], [('IDX_Valid_Id', 'index.c')], ['idx_valid']),
'C06': P('Silos never exceed the configured maximum size', 'No silo ever grows beyond the configured maximum size, neither while it is first written nor by appending later objects to it. Space offered for writing always lies within the buffer and the remaining room.',
    ['inputs', 'histories', 'configurations'], 'all maximum sizes, object sizes, fill levels and append histories, including other writers appending between the size check and taking the hold',
    'they use one maximum size.', ['wsilo.c', 'segjob.c', 'warcinfo.c'], [('Wsilo_GetSpace', 'wsilo.c'), ('silo_attempt_append', 'wsilo.c')],
    ['ws_space', 'ws_space_io', 'ws_append', 'ws_append_io', 'ws_header', 'ws_finish', 'ws_new']),
'C07': P('Installed silos are append-only and exclusively held', 'A silo that exists is never truncated, replaced, renamed or overwritten; it is only ever extended at its end, by whoever exclusively created its hold file. Hold files are always released by their creator, and never by anybody else.',
    ['histories', 'crash_points', 'fault_sequences'], 'every sequence of file system calls the writer makes, with existing or missing silos, holds by others, write protected silos and failing calls',
    'they never have two writers nor a failing call.', ['wsilo.c'], [('Wsilo_New', 'wsilo.c'), ('Wsilo_Install', 'wsilo.c'), ('silo_attempt_append', 'wsilo.c'), ('wsilo_delete', 'wsilo.c')],
    ['ws_new', 'ws_install', 'ws_install_io', 'ws_append', 'ws_append_io', 'ws_commit', 'ws_abandon', 'ws_next']),
'C08': P('The index only refers to complete, installed objects', 'An index entry is made only after the object it refers to is completely written to a silo that exists under its final name, and it carries the silo and offset where the record of that object starts. An interrupted or failed store therefore never leaves an index entry that leads nowhere or into other data.',
    ['crash_points', 'fault_sequences', 'histories'], 'every interruption between two system calls of a commit, short and failing writes, appended and newly installed, segmented and unsegmented objects',
    'no test interrupts a store.', ['wsilo.c'], [('Wsilo_Commit', 'wsilo.c'), ('Wsilo_Install', 'wsilo.c'), ('silo_attempt_append', 'wsilo.c')],
    ['ws_commit', 'ws_commit_io', 'ws_install', 'ws_install_io', 'ws_append', 'ws_append_io']),
'C05': P('Silo numbers map to unique files in small directories', 'Every silo number maps to exactly one path below the silo directory, different numbers map to different paths, and no directory ever holds more than one hundred silos or subdirectories of the hierarchy. A hold file is the name of its silo plus a suffix. Iterating over the silos visits every existing one exactly once, in order.',
    ['inputs', 'histories'], 'all 2^32 silo numbers, every set of existing silos',
    'they create fewer than twenty silos, all of them in the first directory.', ['silo.c'], [('Silo_Filename', 'silo.c'), ('numpart', 'silo.c'), ('Silo_Iter', 'silo.c')],
    ['silo_name', 'silo_part', 'silo_lemma', 'silo_iter']),
'C09': P('Every compressed record carries its own length', 'Every record the program compresses carries an extra gzip header field with the exact length of the whole gzip member, so that a reader can skip it without decompressing. A header which is not complete, or not one of ours, is never used as a length.',
    ['inputs', 'configurations'], 'all record bodies and headers of any length, all compression outcomes, all byte sequences in place of a header',
    'they look at small records which were written by the same run.', ['gzip.c', 'wsilo.c'], [('Gzip_WriteAa', 'gzip.c'), ('Gzip_ReadAa', 'gzip.c'), ('Gzip_Vsb', 'gzip.c')],
    ['gz_read', 'gz_read_bad', 'gz_write', 'gz_write_bad', 'gz_init', 'gz_vsb']),
'C10': P('Stitched gzip output is one valid gzip stream', 'When the segments of an object are delivered still compressed, the concatenation handed to the caller is exactly one gzip stream: one header, the compressed data of all segments in order without their headers and trailers, and one trailer with the CRC and length of the whole object, for any number of segments of any length and however their data is split into chunks.',
    ['inputs', 'histories'], 'all segment contents and lengths, also beyond 4 GB, all ways of splitting the data into chunks, a caller which gives up at any point',
    'their segments are small and always arrive in one chunk.', ['gzip.c', 'getjob.c', 'rsilo.c'], [('gzip_stitch_feed', 'gzip.c'), ('gzip_stitch_fini', 'gzip.c')],
    ['stitch_new', 'stitch_feed', 'stitch_fini']),
'C11': P('Stored objects are exactly the input', 'Storing an object writes every byte of its input exactly once and in order into segments which cover it without gap or overlap, whatever its length and however reads and compression chop it up, and records for each segment and for the whole object the number of bytes and the digest of exactly those bytes. When the input cannot be read completely nothing is stored and the command fails.',
    ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all object lengths and contents, all ways read(2) and deflate(3) can split them, all sizes of silos relative to the object, failing reads',
    'their objects are smaller than a handful of silos and read in one go from a regular file.',
    ['segjob.c', 'main_store.c', 'wsilo.c'], [('SegJob_Feed', 'segjob.c'), ('segjob_finishseg', 'segjob.c'), ('SegJob_Commit', 'segjob.c'), ('main_store', 'main_store.c')],
    ['store', 'seg_new', 'seg_feed', 'seg_life', 'seg_commit', 'seg_destroy', 'ws_header', 'ws_finish', 'ws_space']),
'C12': P('Identifiers are determined by content', 'An object which is stored without an identifier of its own gets one that is the configured number of digits of the SHA256 digest of its content, or, for metadata, of the reference followed by the digest of its content. The record, the index entry and what is reported to the user all carry that same identifier; storing the same object again finds the one stored earlier.',
    ['inputs', 'configurations'], 'all digests, types, references and identifier sizes, identifiers given by the user and made from the content, objects of one or several segments',
    'identifiers are compared with recorded values for a few files and one identifier size.',
    ['ident.c', 'segjob.c', 'warcinfo.c'], [('Ident_Create', 'ident.c'), ('Ident_Set', 'ident.c'), ('SegJob_Commit', 'segjob.c'), ('Warcinfo_New', 'warcinfo.c')],
    ['ident_resource', 'ident_continuation', 'ident_warcinfo', 'ident_metadata', 'ident_set', 'seg_commit', 'warcinfo', 'idx_valid']),
'C13': P('Retrieval delivers exactly the object or fails loudly', 'Retrieving an object hands out exactly the bytes that were stored, every segment once and in order, and the number of bytes and the digest are checked against what the record says. If anything is missing, truncated or cannot be read or written, the command fails; it never reports success for incomplete output.',
    ['inputs', 'fault_sequences', 'histories'], 'all records and segment chains, all chunkings of the compressed data, truncated silos, failing reads and writes, all combinations of output options',
    'they retrieve intact objects to a regular file.',
    ['main_get.c', 'getjob.c', 'rsilo.c'], [('GetJob_Iter', 'getjob.c'), ('Rsilo_ReadChunk', 'rsilo.c'), ('Rsilo_ReadGZChunk', 'rsilo.c'), ('get_iter', 'main_get.c')],
    ['get', 'get_iter', 'gj_iter', 'gj_new', 'gj_deliver', 'gj_total', 'gj_headers', 'rs_open', 'rs_head', 'rs_gz', 'rs_chunk', 'rs_crnl']),
'C22': P('Segment chains are followed completely and correctly', 'For a segmented object, lookup collects exactly its own segments, from the first to the one that carries the total length, in order and each once, also when other records share the identifier prefix by which segments are chained. An incomplete chain is reported as a missing object, never delivered as a shorter one.',
    ['inputs', 'histories'], 'all chains of any number of segments, in any set of index entries with equal prefixes',
    'they have three segments and identifiers which do not collide.',
    ['getjob.c', 'segjob.c'], [('getjob_iter', 'getjob.c'), ('GetJob_New', 'getjob.c'), ('SegJob_Commit', 'segjob.c')],
    ['gj_iter', 'gj_new', 'gj_total', 'gj_delete', 'seg_commit', 'seg_life']),
'C19': P('Record headers survive the round trip', 'A record header holds at most one field of each name, whatever its case: setting a field replaces it, deleting it removes exactly it, a copy holds the same, and all other fields keep their values. Its serialisation lists the identifier and then every field once, sorted by name, and parsing that text gives back the same identifier, names and values.',
    ['inputs', 'histories'], 'all headers with any number of fields, all names and values which can be written in a WARC header, every order of operations',
    'they only ever write one set of headers.',
    ['header.c'], [('Header_Set', 'header.c'), ('Header_Serialize', 'header.c'), ('Header_Parse', 'header.c'), ('Header_Delete', 'header.c')],
    ['hdr_set', 'hdr_get', 'hdr_serialize', 'hdr_parse', 'hdr_delete', 'hdr_clone', 'hdr_destroy', 'hdr_number', 'hdr_id', 'hdr_ref']),
'C14': P('Audit reports exactly the damaged records', 'Audit reads every record of every silo, whatever it finds in the others, and reports an error for a record exactly if its digest, length, compressed length, segment number or identifier disagree with its content. For segmented objects it follows the segments in order, reports any that are missing, and an error exactly if the digest, total length or identifier of the whole object are wrong. It reports no error for what the program itself wrote.',
    ['inputs', 'histories'], 'all records, contents, headers and kinds of mismatch, all arrangements of segments over silos, missing silos and segments',
    'they audit undamaged silos and only look for the absence of errors.',
    ['main_audit.c'], [('audit_one', 'main_audit.c'), ('audit_silo', 'main_audit.c'), ('audit_one_pending', 'main_audit.c'), ('audit_final_pending', 'main_audit.c')],
    ['audit_one', 'audit_final', 'audit_silo', 'audit_add', 'audit_pending', 'audit_main', 'silo_iter', 'hdr_get']),
'C21': P('Reindexing rebuilds the index from the silos', 'Reindexing reads every record of the silos and enters each in the index exactly once, with its identifier, type, segmentation flags, silo and offset, and the segments of an object linked in the order of their numbers, in whatever order the silos present them, so that a lost index is restored with everything it held. Segments which cannot be linked and silos which cannot be read are reported.',
    ['inputs', 'histories'], 'all silos with any sequence of records of any type, all interleavings of the segments of any objects',
    'they reindex one small archive whose silos present all segments in order.',
    ['main_reindex.c', 'silo.c', 'index.c'], [('silo_iter', 'main_reindex.c'), ('got_seg', 'main_reindex.c'), ('try_seg', 'main_reindex.c'), ('Silo_Iter', 'silo.c')],
    ['ri_silo', 'ri_seg', 'ri_left', 'ri_main', 'silo_iter', 'idx_insert', 'rs_head']),
'C18': P('A new silo takes the first free number', 'A store which needs a new silo takes the first number, from the remembered one upwards, whose silo does not exist and which nobody else holds, and makes the directories it needs; when it cannot, it ends with an error. The remembered silo numbers are only hints: they move only past silos which exist, what is read is exactly what was last written, and an incomplete or missing cache file changes nothing.',
    ['inputs', 'histories', 'fault_sequences'], 'all sets of existing and held silos, all contents of the cache file, missing directories at any depth, directories which cannot be made',
    'they have one writer, few silos and an intact cache in a directory which exists.',
    ['wsilo.c', 'aardwarc.c'], [('Wsilo_Next', 'wsilo.c'), ('silo_mkparentdir', 'wsilo.c'), ('AardWARC_ReadCache', 'aardwarc.c'), ('AardWARC_WriteCache', 'aardwarc.c')],
    ['ws_next', 'ws_new', 'mkparent', 'cache', 'ws_install', 'ws_append']),
'C24': P('The configuration is read as written', 'A configuration file is read completely or refused. Its sections and the entries in them have exactly the names and arguments written there, comments and blanks apart; a section is found whatever the case of its name, lookups and iterations deliver exactly its entries, in order, and a section which is missing or does not hold exactly one value where one is needed is told. Prefix, identifier length, directory, silo size, silo names and sort buffer are taken as configured or by default, and values which cannot be used are refused with a message.',
    ['inputs', 'configurations'], 'all sets of sections and entries, all values, files which cannot be read completely or hold impossible bytes',
    'they use one good configuration file.',
    ['config.c', 'aardwarc.c'], [('Config_Read', 'config.c'), ('Config_Get', 'config.c'), ('Config_Find', 'config.c'), ('Config_Iter', 'config.c'), ('AardWARC_New', 'aardwarc.c')],
    ['cfg_new', 'cfg_get', 'cfg_read', 'cfg_parse']),
'C20': P('Filter reports exactly the identifiers which are missing', 'Filter reports, as they were given and in that order, exactly the lines whose identifiers are not in the archive, or, as asked, exactly those which are, or all of them with their state, in whatever order, case and however often identifiers are given, with or without prefix. An identifier is there exactly if the index holds an entry with its key and, when the silos are to be looked at, the record it names has this very identifier. What is no identifier is refused.',
    ['inputs', 'histories', 'configurations'], 'all lists of identifiers, all indexes in any order with any number of entries with equal keys, all lines',
    'they filter a handful of identifiers which are all different and in order.',
    ['main_filter.c'], [('filter_iter', 'main_filter.c'), ('filter_s_check', 'main_filter.c'), ('read_file', 'main_filter.c'), ('main_filter', 'main_filter.c')],
    ['filter_iter', 'filter_s', 'filter_read', 'filter_main', 'idx_iter']),
'C16': P('String buffers hold exactly what was appended', 'A growing string buffer holds exactly the bytes appended to it, in order and ended by a NUL, however often and by however much it has to grow; a buffer of fixed size never holds more than fits and reports once it was too small. The names, headers and messages of the program are made with them.',
    ['inputs', 'histories', 'fault_sequences'], 'all buffer sizes and fill levels, all strings, bytes and formatted text of any length, allocations which fail',
    'their strings fit the first allocation.',
    ['vsb.c'], [('VSB_putc', 'vsb.c'), ('VSB_bcat', 'vsb.c'), ('VSB_cat', 'vsb.c'), ('VSB_vprintf', 'vsb.c'), ('VSB_finish', 'vsb.c')],
    ['vsb_putc', 'vsb_bcat', 'vsb_cat', 'vsb_printf', 'vsb_life']),
'C15': P('The stevedore stores exactly what it is sent and answers in order', 'A message arrives with the command, length and body it was sent with, however the connection cuts it up, and a message cut short is told from the end of the connection. The stevedore hands every byte of an object or of metadata to a store of its own, in order and none of the next message, and tells it the end when that is sent; queries are asked in the order they arrive and each is answered once: by the identifiers which are missing, by how many are not, and by the end of the queries. Lines of answers are passed on whole, and a store or filter which fails ends the stevedore instead of being answered.',
    ['inputs', 'histories', 'fault_sequences'], 'all messages of all lengths in all pieces, all queues of queries, connections which end anywhere, jobs which fail',
    'the tests do not run stow or the stevedore at all.',
    ['main_stevedore.c', 'proto.c', 'vlu.c'], [('input', 'main_stevedore.c'), ('start_filter', 'main_stevedore.c'), ('filter_end', 'main_stevedore.c'), ('job_start', 'main_stevedore.c'), ('proto_in', 'proto.c'), ('proto_out', 'proto.c'), ('VLU_Fd', 'vlu.c')],
    ['stv_input', 'stv_meta', 'stv_ref', 'stv_filter', 'stv_lines', 'stv_end', 'stv_start', 'proto_frame', 'vlu_line', 'vlu_fd', 'vlu_all']),
}
