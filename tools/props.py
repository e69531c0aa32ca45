"""Harnesses, bounds and assumptions per property."""
STUBS = "Dependencies outside the repository (prost, flate2, the thread pool, external sort, indexes) are replaced by small functional equivalents when the code is encoded (DESIGN.md, 'Stubs'); counterexamples are replayed with the real ones."
SCHED = "Threads of the pools run one at a time and switch where they block, take work or pass an explicit switch point; the memory model is sequentially consistent. Schedules are explored up to the stated number of voluntary switches."
IDS = "ids and references in -(2^62-1)..2^62-1 (delta coding does not overflow)"
def h(entry, **k): return dict(entry=entry, **k)
R01 = dict(reach=[0, 1])
PROPS = {
 'C01': dict(harnesses=[h('c01_node'), h('c01_chain'), h('c01_text'), h('c01_tags'), h('c01_millis'), h('c01_grid'), h('c01_many'), h('c01_long'), h('c01_strings')],
             bounds=['1-2 nodes per file with every field symbolic (' + IDS + ', versions 0..2^31-1, whole range of coordinates and timestamps), 1-3 nodes for delta chains', '200 nodes (500 thorough) with about 190 strings', 'texts: 2 elements with a tag and a user name each, every character of every text symbolic (ASCII), one of them of 0-2 (3) characters or one wide character of 2, 3 or 4 bytes; further tags and names from 6 words', 'texts of 13 lengths from 127 to 70000 with a symbolic character at either end', '66000 different strings in one block', 'tags: neighbours with 1 and 2 (3 thorough) tags of single symbolic characters, equal or not in any pattern'], assumptions=[STUBS]),
 'C02': dict(harnesses=[h('c02_way'), h('c02_text'), h('c02_tags'), h('c02_many'), h('c02_long'), h('c02_strings')], bounds=['1-2 ways (3 thorough) with 0-3 (5) symbolic references and every metadata field symbolic', '150 ways (400), one with 140000 references (1000000)', 'texts: 2 elements with a tag and a user name each, every character of every text symbolic (ASCII), one of them of 0-2 (3) characters or one wide character of 2, 3 or 4 bytes; further tags and names from 6 words', 'texts of 13 lengths from 127 to 70000 with a symbolic character at either end', '66000 different strings in one block', 'tags: neighbours with 1 and 2 (3 thorough) tags of single symbolic characters, equal or not in any pattern'], assumptions=[STUBS, IDS]),
 'C03': dict(harnesses=[h('c03_relation'), h('c03_text'), h('c03_tags'), h('c03_many'), h('c03_long'), h('c03_strings')], bounds=['1-2 relations with 0-2 (3 thorough) members of any type, symbolic ids and metadata', '150 relations (400), one with 70000 members (300000)', 'texts: 2 elements with a tag and a user name each, every character of every text symbolic (ASCII), one of them of 0-2 (3) characters or one wide character of 2, 3 or 4 bytes; further tags and names from 6 words, roles likewise', 'texts of 13 lengths from 127 to 70000 with a symbolic character at either end', '66000 different strings in one block', 'tags: neighbours with 1 and 2 (3 thorough) tags of single symbolic characters, equal or not in any pattern; 1 tag and 3 roles for relations'], assumptions=[STUBS, IDS]),
 'C04': dict(harnesses=[h('c04_blocks', reach=[0, 1, 2]), h('c04_full'), h('c04_ready', reach=[0, 1]), h('c04_batch')], bounds=['runs of 0 or 7998 elements of any kind followed by 0-4 (6 thorough) elements of any legal kinds', 'runs of 8000, 8001, 15999, 16000 and 16001 elements of any kind with an optional successor', '3 calls handing over one element or batches of 0-3 (4) elements of mixed kinds; batches of 2-8001 (16001) elements after 0, 1 or 7999 others'], assumptions=[STUBS]),
 'C05': dict(harnesses=[h('c05_coords'), h('c05_dense_info'), h('c05_plain_info'), h('c05_groups'), h('c05_gran'), h('c05_single', **R01), h('c05_strings'), h('c05_big')], bounds=['2 nodes (3 thorough), granularities 1, 100, 1000, 10^7 or absent, offsets symbolic or absent, values symbolic', 'metadata absent, complete, each field absent, each field alone; date granularities 1, 500, 1000, 60000 or absent', '1-3 (4) groups over one or several blocks', 'granularity and date granularity symbolic in 1..2^24 with 5 positions and 3 offsets', 'a string table of 3 texts with symbolic characters (one wide text, thorough) and symbolic indexes as keys, values or users', '20000 (140000) nodes in one group, the last with symbolic id and position'], outside=['positions and granularities symbolic at the same time'], assumptions=[STUBS, IDS]),
 'C06': dict(harnesses=[h('c06_way'), h('c06_relation'), h('c06_order'), h('c06_several'), h('c06_strings', **R01), h('c06_big')], bounds=['one way with 0-2 (4 thorough) references; one relation with 0-2 (3) members; every metadata field absent or symbolic', '1-4 (5) groups of any kinds in any order', '3 (5) elements per group', 'a string table of 3 texts with symbolic characters and symbolic indexes as keys, values, users or roles, 0-2 (3) tags', '20000 (140000) ways or relations in one group; one with 70000 (300000) references or members, the last symbolic'], assumptions=[STUBS, IDS]),
 'C07': dict(harnesses=[h('c07_header', **R01), h('c07_new'), h('c07_text'), h('c07_steps')], bounds=['every header field absent, empty or set; bounding box edges symbolic in nanodegrees over the legal range; numbers over all 64 bits', 'feature lists of 0-4 entries, with repetitions', 'texts of symbolic characters', 'headers filled in field by field over an earlier content or none'], assumptions=[STUBS]),
 'C08': dict(harnesses=[h('c08_features', **R01), h('c08_first', **R01), h('c08_near', **R01), h('c08_all', **R01)], bounds=['0-3 (4 thorough) required features in any order from 3 (4) supported and several unsupported names', 'all supported features, up to 4 times, with 0-3 unsupported ones', 'files that start with data, with a block whose type is one edit away from the header\'s, with nothing', 'one name that is a supported name with any one character (symbolic) replaced, inserted or removed, or truncated, or any text of 0-2 characters, alone or before or after a supported name'], assumptions=[STUBS]),
 'C09': dict(harnesses=[h('c09_blocks', **R01), h('c09_many'), h('c09_types', **R01), h('c09_sizes'), h('c09_far', sched=True)], bounds=['0-2 (3 thorough) blocks behind the header of any type (data, empty, unknown, second header), paddings 0, 100 (300) bytes, index data absent, 0, 5 (300) bytes, raw or zlib', '60 (300) blocks of up to 40000 bytes', 'block types one edit (with a symbolic character) away from the known ones', 'bodies of 0 to 300000 and index data of 0 to 60000 bytes around powers of two', 'blocks behind 2 and 4 GiB'], assumptions=[STUBS]),
 'C10': dict(harnesses=[h('c10_stores', **R01), h('c10_size', **R01), h('c10_damage'), h('c10_foreign'), h('c10_raw')], bounds=['every compression variant of the format', 'every stated size (32 bits, symbolic) with zlib data, sizes near the true one with raw data', 'foreign compressions with no, one or any plausible content and 4 stated sizes', 'damaged streams'], outside=['the correctness of zlib itself'], assumptions=[STUBS + ' The zlib stand-in stores the bytes verbatim behind a length and checksum, so it shows what the code does with its results, not the real format.']),
 'C11': dict(harnesses=[h('c11_each', sched=True, **R01), h('c11_queue', sched=True), h('c11_content', sched=True), h('c11_big', sched=True)], bounds=['0-2 (3 thorough) blocks of 0-2 elements, 1-2 (3) workers, every order of taking and finishing blocks, 1 (2) further voluntary switches at callbacks', '1-2 blocks of 1-2 elements of any kinds with all fields symbolic', '1030 blocks with 1, 4 and 9 workers on one schedule', 'two blocks, one of them of 20000 (140000) elements, on one schedule'], assumptions=[STUBS, SCHED]),
 'C12': dict(harnesses=[h('c12_count', sched=True, **R01), h('c12_many', sched=True), h('c12_content', sched=True), h('c12_race', sched=True, hooks=True, **R01), h('c12_big', sched=True)], bounds=['0-2 (3 thorough) blocks of 0-2 elements of any kinds, every order of taking blocks', '1-2 blocks of 0-2 elements of any kinds with all fields symbolic', '40 (200) blocks on one schedule', '1-2 (3) blocks with 2 (3) interruptions of a worker at any atomic load or store or lock in the code of osm-io', 'a block of 20000 (140000) elements followed by 1100 (3000) blocks of one, on one schedule'], assumptions=[STUBS, SCHED]),
 'C13': dict(harnesses=[h('c13_small', sched=True), h('c13_batches', sched=True), h('c13_kinds', sched=True), h('c13_content', sched=True), h('c13_long', sched=True), h('c13_stream', sched=True), h('c13_big', sched=True), h('c13_window', sched=True), h('c13_race', sched=True, hooks=True)], bounds=['4 (5 thorough) nodes with symbolic ids and versions in every order, 3 (4) in two batches or of any kinds; block sizes 1-3; buffers that hold all or one more', '5 (7) ordered elements through buffers of 1-2 and blocks of 1-2 with 2 (3) delayed threads', '8 (10) elements, one at a time or in batches of 2-3, each possibly (symbolically) out of order with its neighbours, through buffers of 2-7', '9 (12) blobs with 1 (2) encoding threads held up for as long as others can run; 3 (4) blobs with 2 (3) interruptions at any atomic access or lock in the code of osm-io', 'streams of 8001 and 16001 (24000) elements in blocks of 8000, one id symbolic', 'contents: one element per kind'], assumptions=[STUBS, SCHED]),
 'C14': dict(harnesses=[h('c14_order', sched=True, reach=[0, 1, 2]), h('c14_big', sched=True, **R01)], bounds=['4 (5 thorough) elements with symbolic ids, versions and any kinds in every order, buffers 0-2, blocks 1-3, one at a time or in batches of 2-3', 'one of 9000 elements late by 99 to 9000 places, its id symbolic within 3 values'], assumptions=[STUBS, SCHED]),
 'C15': dict(harnesses=[h('c15_order', **R01), h('c15_kinds')], bounds=['triples of elements of every kind; ids and versions over their whole range'], assumptions=[]),
 'C16': dict(harnesses=[h('c16_box', sched=True, **R01), h('c16_race', sched=True, hooks=True), h('c16_block', **R01), h('c16_big', sched=True)], bounds=['0-2 (3 thorough) blocks of 0-2 elements, nodes (plain, deleted and dense) anywhere on the 1e-7 degree grid, ways and relations in between, every order of finishing blocks, 1 voluntary switch', '2 (3) blocks with 2 (3) interruptions at any atomic access or lock in the code of osm-io', 'boxes of 1-2 (3) single blocks of 0-3 (4) elements', '20000 (70000) nodes in one block or 1100 in as many blocks, one of them anywhere, on one schedule'], assumptions=[STUBS, SCHED]),
 'C17': dict(harnesses=[h('c17_merge'), h('c17_bits'), h('c17_text', **R01), h('c17_refuse', **R01)], bounds=['1-3 (4 thorough) boxes and points with symbolic corners on the 1e-7 degree grid', 'a point and 1 (2) boxes or points with any double in the legal range as each edge', 'text with 0-3 digits before and 0-3 (4) behind the point of one number, all symbolic, white space around it', 'texts of 0-6 parts, one of them empty, one symbolic character, a number with one symbolic character behind it, or one of 10 texts that are no number'], outside=['numbers of more digits and with exponents'], assumptions=[]),
 'C18': dict(harnesses=[h('c18_history'), h('c18_many'), h('c18_threads', sched=True)], bounds=['5 (7 thorough) steps of add and drain over 2 accumulators, ids symbolic', '20 (300) accumulators; up to 8001 (70000) elements in one; accumulators that end undrained', '3 blocks over 2 workers with 2 (3) voluntary switches'], assumptions=[STUBS, SCHED]),
 'C19': dict(harnesses=[h('c19_rows'), h('c19_stream'), h('c19_long'), h('c19_many')], bounds=['one element of any kind with every field symbolic within windows: ids and references of 1, 3 and 19 digits and both signs; versions 0, 1..9, 100..999 and 10^9..2^31-1; any millisecond of 7 days from 0001 to 9999; coordinates in 6 windows of 1e-4 degrees; 4 users, 4 changesets, 4 tag lists, 0-3 (5 thorough) references', 'streams of 3 elements of any kinds with 0-1 (2) references and 0 or 3 tags each', 'a node with 20000 (70000) tags, a way or relation with 70000 (140000) references or members, one of them symbolic'], outside=['numbers outside the windows', 'texts outside the lists (C21)'], assumptions=[STUBS]),
 'C20': dict(harnesses=[h('c20_history'), h('c20_long'), h('c20_many')], bounds=['histories of 3 (4 thorough) versions of 1-3 objects of any kinds, every pattern of deletion and undeletion, symbolic ids: negative, small, on both sides of 2^31 (thorough: 2^32, 10^18), symbolic versions', 'a node with 20000 (70000) tags, a way or relation with 70000 (140000) references or members, one of them symbolic'], assumptions=[STUBS]),
 'C21': dict(harnesses=[h('c21_text'), h('c21_forms'), h('c21_long')], bounds=['tag keys and values, roles and user names of 1-2 (3 thorough) symbolic characters of ASCII, or one symbolic character of 2, 3 or 4 bytes', 'texts of 5 (13) lengths from 63 to 70000 of four kinds of characters with a symbolic one in the middle or at the end', 'every escape a reader has to accept: letters, octal and hexadecimal digits, other characters; alone or between other characters'], outside=['several symbolic characters in longer texts, NUL (which PostgreSQL text cannot hold)'], assumptions=[STUBS]),
 'C22': dict(harnesses=[h('c22_join'), h('c22_versions'), h('c22_columns'), h('c22_sequence'), h('c22_owner'), h('c22_users')], bounds=['1-2 (3 thorough) elements of one kind with 0-3 tags and references, 3 (4) versions and neighbours with and without contents; ids and versions of several lengths and signs; 3 (4) row orders', '5 column orders', '3 (4) way nodes or members in every order of rows with symbolic sequence numbers of 1-4 digits', '3 changesets of any of 3 users in two row orders, optional columns absent or present', 'every column of users and changesets with 2-5 forms of values each'], assumptions=[STUBS + ' The external sort is replaced by an in-memory sort by the same typed keys.']),
 'C23': dict(harnesses=[h('c23_each'), h('c23_history'), h('c23_long'), h('c23_many')], bounds=['one element as in C19', '3 elements of any kinds with ids and versions of several lengths and signs, written in two orders', 'an element with 5000 (70000) tags, references or members, one of them symbolic'], assumptions=[STUBS]),
 'C24': dict(harnesses=[h('c24_refs'), h('c24_many')], bounds=['3 (4 thorough) elements of different kinds in any of 3 changesets, each owned by any of 3 users', '600 (3000) elements in 300 (1500) changesets of 101 users'], assumptions=[STUBS]),
 'C25': dict(harnesses=[h('c25_tile')], bounds=['16 windows of coordinates (corners, axes, middle, quadrants), each of 10^5 (10^6 thorough) units of 1e-7 degree along one axis and a tenth of it along both'], outside=['coordinates outside the windows; coordinates off the 1e-7 grid'], assumptions=[STUBS]),
 'C26': dict(harnesses=[h('c26_iso', reach=[0, 1]), h('c26_dump', reach=[0, 1]), h('c26_coords')], bounds=['every microsecond of 7 days from 0001 to 9999, of the first and last representable day and of 6 days no date denotes; every microsecond count beyond the range', 'the same for milliseconds in dumps', 'coordinates over the whole legal range at nanodegree resolution'], outside=['the other days'], assumptions=[STUBS]),
 'C27': dict(harnesses=[h('c27_cut', **R01), h('c27_sizes', **R01), h('c27_framing', **R01)], bounds=['every cut of a file of two data blocks, raw or zlib, read in three ways', 'every stated data size from -64 to beyond the file and every stated header size, as symbolic values', '7 kinds of inconsistent framing'], assumptions=[STUBS, SCHED]),
 'C28': dict(harnesses=[h('c28_callback', sched=True, **R01), h('c28_block', sched=True, **R01), h('c28_far', sched=True)], bounds=['0-2 (3 thorough) blocks, any failing call or block, 6 (9) kinds of damage, 1-2 workers, 1 voluntary switch', 'a failing call far into a block of 20000 elements or into 1100 blocks, on one schedule'], assumptions=[STUBS, SCHED]),
 'C29': dict(harnesses=[h('c29_pbf', **R01), h('c29_full', **R01), h('c29_parallel', sched=True, **R01), h('c29_dump', **R01), h('c29_index', **R01)], bounds=['a failure at any one of the file operations (open, write) of a whole life of a writer, and one beyond the last: once, for good, a short write or an interrupted call', 'PBF writer: 2 nodes with every field symbolic in 1-2 blocks, 8001 nodes that fill a block; parallel writer: 3 nodes in blocks of 1-2, one at a time or in a batch, on one schedule; dump: one element of any kind, with a tag of 3 or 9000 characters'], outside=['failing creation of directories, renames and memory maps; several failures in one run; failures in the files of the index and sort libraries'], assumptions=[STUBS, 'The file system of the encoding: a failing call returns -1 with ENOSPC or EIO and has no effect, a short one handles half of the bytes, an interrupted one returns EINTR.']),
 'C30': dict(harnesses=[h('c30_pbf', sched=True, **R01), h('c30_blocks', sched=True, **R01), h('c30_open', **R01), h('c30_dump', **R01)], bounds=['a failure at any one of the file operations (open, read) after or while the reader is created, and one beyond the last: once, for good, a short read or an interrupted call', 'PBF: 2 nodes with every field symbolic in one block, 3 (6 thorough) blocks of 2 nodes; elements, counts, parallel iteration and blocks, on one schedule', 'dump: one element of any kind with its tags and references and a relation'], outside=['failures while a dump is sorted; several failures in one run'], assumptions=[STUBS, 'The file system of the encoding: a failing call returns -1 with EIO and has no effect, a short one handles half of the bytes, an interrupted one returns EINTR.']),
 'C31': dict(harnesses=[h('c31_readers'), h('c31_writers'), h('c31_parallel', sched=True), h('c31_dumps'), h('c31_again', sched=True), h('c31_dump_readers')], bounds=['2 PBF readers with 3 iterators over 2-3 elements each, 2 PBF, parallel or dump writers with 2 elements each, in every order of steps (one schedule for the parallel ones), 2 dump readers with 3 iterators in 6 orders; ids symbolic', 'a file or dump that is longer than the new one in its place'], outside=['concurrent use from several threads; more than two instances'], assumptions=[STUBS]),
 'C32': dict(harnesses=[h('c32_copy'), h('c32_parallel', sched=True), h('c32_dump')], bounds=['1-2 (3 thorough) groups of dense or plain nodes, ways or relations in one or several blocks, ids, references, positions and metadata symbolic, metadata absent in 6 (14) combinations, 3 granularities; copied by elements, by blocks or by batches', '0-2 (3) blocks of 0-2 elements of all kinds with symbolic ids, 1-2 workers, blocks of 1-2 elements in the copy, one at a time or in batches, 1 (2) voluntary switches', 'dumps of 1-2 (3) elements of any kinds'], outside=['the value of a timestamp that is absent'], assumptions=[STUBS, SCHED, IDS])
}
