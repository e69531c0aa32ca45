#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids, titles and statements stay in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

PBF = "src/osm/pbf/"
AD = "src/osm/apidb_dump/"
FIX = "The tests only count the objects of a handful of fixture files; "

p("C01", "PBF node round trip",
  "A sequence of nodes written to a PBF file and read back yields the same nodes in the same order. Every node keeps its id, version, changeset, user id, user name, visibility flag and tags (order and duplicates included); its coordinates come back equal to the nearest 1e-7 degree and its timestamp equal to the second.",
  ["inputs"], "every sequence of nodes with 64-bit ids and changesets, 32-bit versions and uids, coordinates in the legal range, any tag lists and user names",
  FIX + "field values, delta chains between neighbours, rounding and empty strings are never compared.",
  [PBF+"dense_group_builder.rs", PBF+"osm_data.rs", PBF+"string_table_builder.rs", PBF+"writer.rs", PBF+"reader.rs", PBF+"element_iterator.rs"],
  [("dense node delta encoding", PBF+"dense_group_builder.rs"), ("dense node decoding", PBF+"osm_data.rs read_dense"), ("string table", PBF+"string_table_builder.rs")],
  ["pbf Writer / ParallelWriter output read through pbf Reader::elements"])
p("C02", "PBF way round trip",
  "A sequence of ways written to a PBF file and read back yields the same ways in the same order, each with its id, version, timestamp (to the second), changeset, user id, user name, visibility, full ordered list of node references and ordered tags.",
  ["inputs"], "every sequence of ways, with any ordered list of 64-bit node references (repeated and decreasing included)",
  FIX + "reference order, repeated references, metadata and tags are never compared.",
  [PBF+"ways_group_builder.rs", PBF+"osm_data.rs"], [("reference delta encoding", PBF+"ways_group_builder.rs"), ("way decoding", PBF+"osm_data.rs read_ways/read_info")],
  ["pbf Writer output read through pbf Reader::elements"])
p("C03", "PBF relation round trip",
  "A sequence of relations written to a PBF file and read back yields the same relations in the same order, each with its id, version, timestamp (to the second), changeset, user id, user name, visibility, ordered tags, and ordered member list with the type, id and role of every member.",
  ["inputs"], "every sequence of relations with any ordered member list over the three member types, 64-bit member ids and any roles",
  FIX + "member order, member types, roles and metadata are never compared.",
  [PBF+"relations_group_builder.rs", PBF+"osm_data.rs"], [("member delta encoding", PBF+"relations_group_builder.rs"), ("relation decoding", PBF+"osm_data.rs read_relations")],
  ["pbf Writer output read through pbf Reader::elements"])
p("C04", "PBF writer: no element lost at block boundaries or type changes",
  "For any stream ordered nodes, then ways, then relations - each kind possibly absent and of any length - the sequential PBF writer accepts the stream, handed over one by one or in batches of any size, and the closed file contains exactly those elements, once each and in that order. Every data block holds elements of a single kind and at most 8000 of them.",
  ["inputs", "histories"], "every legal element stream, including lengths around multiples of the block capacity and absent kinds",
  FIX + "no test stops exactly at a block boundary, writes a stream lacking one kind, or inspects blocks.",
  [PBF+"element_accumulator.rs", PBF+"writer.rs"], [("block accumulator state machine", PBF+"element_accumulator.rs"), ("close flushes the remainder", PBF+"writer.rs close")],
  ["Writer::write_element / close, then Reader::blocks and Reader::elements"])
p("C05", "PBF decoding of nodes follows the format for every producer",
  "A well-formed data block produced by any writer decodes to the nodes the PBF format assigns to it: coordinates are (offset + granularity * value) nanodegrees, timestamps are value * date granularity, dense arrays are delta-coded, and the format's defaults apply to absent granularities, offsets and visibility. Dense and plain nodes, several groups in one block, metadata absent in whole or in part, and nodes without tags are all accepted.",
  ["inputs"], "every well-formed block: any granularity, offset, date granularity, dense or plain coding, metadata present or absent",
  FIX + "the fixtures come from one or two producers, all with default granularity and zero offsets.",
  [PBF+"osm_data.rs", "src/osm/pbf/proto/osmformat.proto"], [("dense/plain node decoding", PBF+"osm_data.rs read_dense, read_nodes, read_info")],
  ["Reader::elements on a hand-encoded file"])
p("C06", "PBF decoding of ways and relations follows the format for every producer",
  "A well-formed data block of ways or relations produced by any writer decodes to the elements the PBF format assigns to it: references and member ids are delta-coded, strings are looked up in the block's string table, timestamps are value * date granularity, and metadata may be absent in whole or in part. Groups are delivered in the order in which the block stores them.",
  ["inputs"], "every well-formed block of ways and relations, metadata present or absent field by field",
  FIX + "the fixtures come from one or two producers and no field value is compared.",
  [PBF+"osm_data.rs"], [("way/relation decoding", PBF+"osm_data.rs read_ways, read_relations, read_info")],
  ["Reader::elements on a hand-encoded file"])
p("C07", "PBF header round trip",
  "Whatever file information a writer is given - bounding box on the 1e-9 degree grid, required and optional features in order, writing program, source, replication timestamp, sequence number and base URL, each possibly absent - is what a reader of the resulting file reports. A file with an entirely empty header is still readable.",
  ["inputs"], "every combination of present and absent header fields and every bounding box on the nanodegree grid",
  "Tests never compare header fields after a write; the bounding box passes through floating point.",
  [PBF+"osm_header.rs", PBF+"file_info.rs", PBF+"file_block.rs", PBF+"reader.rs"], [("header (de)serialisation", PBF+"osm_header.rs")],
  ["Writer::write_header, then Reader::new(..).info()"])
p("C08", "Readers refuse files that need unsupported features",
  "Opening a PBF file succeeds only if every required feature listed in its header is supported by the reader, in whatever order and number they are listed; otherwise it returns an error naming a missing feature. Optional features never cause refusal, and a file whose first block is not a header is refused.",
  ["inputs"], "every list of required and optional feature strings",
  "One unit test compares three fixed lists of an internal helper; opening a file with unsupported features is never tried.",
  [PBF+"reader.rs"], [("required feature check", PBF+"reader.rs Reader::new, verify_supported_features")], ["Reader::new"])
p("C09", "PBF framing: every block visited once, in file order",
  "For a file made of any number of blocks of any sizes and types, iterating over blocks or elements visits each block exactly once, in file order, with the bytes that belong to it; block sizes, extra header fields or index data never shift or drop a later block, and blocks of unknown types are skipped.",
  ["inputs"], "every sequence of blocks with arbitrary header lengths, body lengths and index data",
  FIX + "framing offsets are only exercised with the sizes those fixtures happen to have.",
  [PBF+"blob_iterator.rs", PBF+"blob_desc.rs", PBF+"file_block_iterator.rs", PBF+"file_block.rs", PBF+"element_iterator.rs"],
  [("blob framing", PBF+"blob_iterator.rs"), ("seek and read of one blob", PBF+"file_block.rs from_blob_desc")], ["Reader::blocks, Reader::elements"])
p("C10", "Blob compression is transparent or refused, never misread",
  "A data block stored raw or zlib-compressed decodes to exactly the bytes that were stored, whether or not the optional uncompressed size is given; what the writer compresses the reader restores. Blocks in a compression the library does not implement, blocks without data, and compressed blocks whose stated uncompressed size is not the size of the data are reported as failures and never yield elements.",
  ["inputs", "configurations"], "every payload and every compression variant the format defines",
  FIX + "unsupported or inconsistent blobs never appear.",
  [PBF+"file_block.rs", PBF+"compression_type.rs"], [("blob data decoding", PBF+"file_block.rs read_blob_data, zlib_decode"), ("blob encoding", PBF+"file_block.rs serialize")],
  ["Reader::elements on a hand-encoded file"])
p("C11", "Parallel iteration delivers every element exactly once",
  "Iterating over a PBF file in parallel hands every element of every data block to the callback exactly once, followed by exactly one sentinel per data block delivered by the same thread after that block's elements, for every number of worker threads and every schedule. No element is delivered before the call or after it returns.",
  ["schedules", "inputs"], "every assignment and order of block processing over the workers, every worker count and block layout",
  "Tests run one uncontrolled schedule and only count objects.",
  [PBF+"reader.rs", PBF+"parallel_element_iteration_command.rs"], [("one command per block", PBF+"parallel_element_iteration_command.rs"), ("shutdown completes pending work", PBF+"reader.rs parallel_for_each")],
  ["Reader::parallel_for_each"])
p("C12", "Object counts are exact",
  "Counting the objects of a PBF file returns exactly the number of nodes, ways and relations that sequential iteration yields, for every block layout and every schedule.",
  ["schedules", "inputs"], "every file and every schedule of the counting workers",
  "Tests compare counts of three fixture files under one uncontrolled schedule.",
  [PBF+"reader.rs"], [("atomic counters updated by the callback", PBF+"reader.rs count_objects")], ["Reader::count_objects"])
p("C13", "Parallel writer output is complete and sorted",
  "When elements arrive with a disorder that fits the ordering buffer, the closed file of the parallel writer contains exactly the submitted elements, each once with its content intact, in type-then-id-then-version order, behind exactly one header. Every block holds one kind of element and at most the requested number, for every buffer size, every block size of at least one and every schedule of the encoding and writing threads.",
  ["schedules", "inputs", "histories"], "every order of submission within the buffer's reach, every buffer and block size, every schedule of the pipeline's threads",
  "Tests write one pre-sorted fixture under one uncontrolled schedule.",
  [PBF+"parallel_writer.rs"], [("ordering buffer", PBF+"parallel_writer.rs"), ("in-order blob writing", PBF+"parallel_writer.rs WriteBlobCommand")],
  ["ParallelWriter, then Reader::elements"])
p("C14", "Parallel writer never silently writes an unsorted file",
  "If elements arrive so far out of order that the ordering buffer cannot restore the order, the parallel writer reports the failure; it never closes successfully having produced a file whose elements are not in type-then-id-then-version order.",
  ["inputs", "histories"], "every submission order, buffer size and block size",
  "No test submits elements out of order.",
  [PBF+"parallel_writer.rs"], [("order check against what was already flushed", PBF+"parallel_writer.rs assert_order, set_current_min_element")],
  ["ParallelWriter::close result and the file read back"],
  [dict(name="last flushed element", meaning="everything that arrives later must not sort before it", where=PBF+"parallel_writer.rs")])
p("C15", "Element ordering is a total order consistent with equality",
  "Comparing elements is antisymmetric, transitive and total, and agrees with equality: nodes sort before ways before relations before the sentinel, and elements of one kind sort by id and then by version. The predicates that tell the kinds apart agree with it.",
  ["inputs"], "every pair and triple of elements",
  "No test compares elements.",
  ["src/osm/model/element.rs"], [("Ord, PartialOrd, PartialEq", "src/osm/model/element.rs")], ["cmp, partial_cmp, ==, sort"])
p("C16", "Computed bounding box is the tightest box around all nodes",
  "The bounding box computed for a PBF file is exactly the smallest box that contains every node of the file, for every distribution of nodes over blocks, mixed blocks included, and for every schedule of the workers. A file without nodes yields an error, not a crash or a box. The box of a single block is likewise the smallest around its nodes, and absent without nodes.",
  ["inputs", "schedules"], "every set of coordinates, every block layout and schedule",
  "One test compares one fixture under one schedule.",
  [PBF+"bounding_box_calculator.rs", PBF+"calc_bounding_box_command.rs", "src/osm/model/bounding_box.rs"],
  [("per-block box", PBF+"calc_bounding_box_command.rs"), ("merge", "src/osm/model/bounding_box.rs")], ["BoundingBoxCalculator::calc"])
p("C17", "Bounding box algebra",
  "Merging a point or a box into a bounding box yields exactly the smallest box containing both, in whatever order points and boxes are merged, and a box made from a single point is that point. The edges keep their meaning (left, bottom, right, top) through construction, accessors and parsing of the comma-separated text form, and text that is not four numbers is refused.",
  ["inputs"], "every sequence of points and boxes, every text of four comma-separated fields",
  "One test parses one good and a few bad strings; merging is not tested.",
  ["src/osm/model/bounding_box.rs"], [("merge_point, merge_bounding_box, from_str", "src/osm/model/bounding_box.rs")], ["BoundingBox API"])
p("C18", "Per-thread accumulators lose and mix nothing",
  "Elements added to an accumulator on one thread are returned to that thread exactly once and in the order added; they never show up in another accumulator or on another thread, and an accumulator can be drained and refilled any number of times.",
  ["histories", "schedules"], "every history of add and drain over several accumulators and threads",
  "No test drains an accumulator twice or uses two of them.",
  [PBF+"thread_local_accumulator.rs"], [("thread-local map keyed by accumulator", PBF+"thread_local_accumulator.rs")], ["ThreadLocalAccumulator::add, elements"])
p("C19", "Database dump history tables hold every version of every element",
  "For every element written to an API database dump, the history tables hold exactly one row per element version and one per tag, way node and relation member, with the element's id, version, changeset, timestamp to the second, visibility, coordinates in 1e-7 degrees, quadtile, key, value, member type, id and role in the columns the dump's table of contents declares. Way nodes and relation members carry sequence numbers counting from 1 in list order, and every table file ends with the end-of-data marker.",
  ["inputs", "histories"], "every sequence of element versions",
  "Tests only run the conversion of one fixture; rows are not compared field by field.",
  [AD+"write/writer.rs", AD+"write/table_data_writer.rs", AD+"write/table_data_writers.rs", AD+"sql.rs"], [("row formatting", AD+"write/writer.rs")],
  ["files written by apidb_dump::write::writer::Writer"])
p("C20", "Current tables hold exactly the latest visible versions",
  "After writing any history ordered by kind, id and version to a database dump, the current tables hold rows - tags, way nodes and members included - for exactly those elements whose last version is visible, taken from that last version, once each.",
  ["histories", "inputs"], "every history of versions with any pattern of visibility, deletion and undeletion",
  "Tests use a fixture without deleted versions.",
  [AD+"write/current_object.rs", AD+"write/writer.rs"], [("one-version look-ahead", AD+"write/current_object.rs"), ("flush at close", AD+"write/writer.rs flush_current_object_lines")],
  ["current_* table files written by the dump Writer"],
  [dict(name="pending current rows", meaning="rows of the last version seen, emitted when a different element starts", where=AD+"write/current_object.rs")])
p("C21", "Database dump text is escaped losslessly",
  "Any tag key, tag value, relation role or user name survives a trip through a database dump unchanged: the dump stores it in the PostgreSQL COPY text format, so tabs, newlines, carriage returns and backslashes never break a row and other characters are left alone, and reading a dump restores the original text.",
  ["inputs"], "every string",
  "The fixtures contain almost no characters that need escaping and text is not compared.",
  [AD+"write/writer.rs", AD+"read/table_reader.rs", AD+"sql.rs"], [("escaping on write", AD+"write/writer.rs"), ("unescaping on read", AD+"read/table_reader.rs")],
  ["dump files; apidb_dump Writer then Reader"])
p("C22", "Reading a database dump joins the right rows",
  "Reading a database dump yields every row of the node, way and relation history tables as one element, in order of id and version within each kind, with exactly the tags, way nodes and members whose id and version match, way nodes and members in sequence order, and the user found through the changeset. The result does not depend on the order of rows in the files, on the order of columns declared by the table of contents, or on rows being absent for some elements.",
  ["inputs"], "every set of table rows satisfying the database's keys, in every row order and column order",
  "Tests read dumps produced by the library itself, already in order, and count elements.",
  [AD+"read/element_iterator.rs", AD+"read/node_relations_reader.rs", AD+"read/way_relations_reader.rs", AD+"read/relation_relations_reader.rs", AD+"read/table_pkey.rs", AD+"read/table_fields.rs", AD+"read/table_reader.rs", AD+"read/reader.rs"],
  [("merge joins", AD+"read/*_relations_reader.rs"), ("sort keys", AD+"read/table_pkey.rs"), ("column lookup", AD+"read/table_fields.rs")],
  ["apidb_dump::read::reader::Reader::elements"])
p("C23", "Database dump round trip",
  "Elements written to a database dump and read back from it are the same elements, in type, id and version order: ids, versions, coordinates to 1e-7 degrees, timestamps to the second, changesets, user ids and names, visibility, tags, ordered way nodes and ordered relation members are all preserved.",
  ["inputs", "histories"], "every history of elements whose changesets each belong to one user",
  "Tests compare element counts of one fixture.",
  [AD+"write/writer.rs", AD+"read/element_iterator.rs", AD+"read/table_reader.rs"], [("writer rows", AD+"write/writer.rs"), ("reader joins", AD+"read/element_iterator.rs")],
  ["apidb_dump Writer then Reader::elements"])
p("C24", "Dump users and changesets are complete and unique",
  "A closed database dump lists every user and every changeset that any written element refers to exactly once, each changeset with the user of its elements, so that no element row dangles, however many elements, users and changesets there are and in whatever order they appear.",
  ["inputs", "histories"], "every assignment of changesets and users to elements",
  "Tests do not look at the users and changesets tables.",
  [AD+"write/table_data_writers.rs", AD+"write/writer.rs"], [("user and changeset indexes with bounded buffers", AD+"write/table_data_writers.rs"), ("write_users, write_changesets", AD+"write/writer.rs")],
  ["users, changesets and changeset_tags files of the dump"])
p("C25", "Node quadtiles follow the OpenStreetMap definition",
  "The quadtile stored with a node is the 32-bit interleaving of its 16-bit scaled longitude and latitude, longitude first, each scaled linearly so that the full range of degrees maps onto 0..65535 and rounded to nearest.",
  ["inputs"], "every coordinate in the legal range",
  "No test checks a tile value.",
  [AD+"sql.rs"], [("tile computation", AD+"sql.rs calculate_tile")], ["tile column of the nodes and current_nodes files"])
p("C26", "Timestamps and coordinates convert exactly",
  "Converting a timestamp to ISO 8601 text denotes the same instant to the second for every representable timestamp and reports an error, not a crash, for every other; the timestamps in a dump denote the same second as the element's. The scaled integer form of a coordinate is the nearest multiple of 1e-7 degree, for both signs.",
  ["inputs"], "every 64-bit timestamp and every coordinate in the legal range",
  "Two tests convert one timestamp each; coordinate conversion is untested.",
  ["src/osm/converters/mod.rs", "src/osm/model/coordinate.rs", AD+"sql.rs"], [("timestamp formatting", "src/osm/converters/mod.rs"), ("lat7/lon7", "src/osm/model/coordinate.rs")],
  ["timestamp_to_iso8601_seconds, Coordinate::lat7/lon7, dump rows"])
p("C27", "Truncated or corrupt PBF files are reported, never read short",
  "Reading a PBF file that was cut off anywhere inside a block, or whose framing is inconsistent, never completes normally with fewer elements than the intact file holds: the failure is reported to the caller. Only a cut exactly between two blocks looks like a complete file.",
  ["crash_points", "inputs"], "every cut position and every corruption of a block's framing",
  "No test reads a damaged file.",
  [PBF+"blob_iterator.rs", PBF+"file_block.rs", PBF+"file_block_iterator.rs", PBF+"reader.rs"], [("framing errors", PBF+"blob_iterator.rs"), ("body read", PBF+"file_block.rs from_blob_desc")],
  ["Reader::elements, Reader::parallel_for_each, Reader::count_objects"])
p("C28", "Failures in worker threads and callbacks reach the caller",
  "When the callback of a parallel iteration returns an error, or a block cannot be decoded, the parallel iteration, the object count or the bounding box computation returns an error instead of success, whichever worker and block it happens in.",
  ["schedules", "fault_sequences"], "every position of the failing block or element, every schedule",
  "Tests only run succeeding callbacks on intact files.",
  [PBF+"reader.rs", PBF+"parallel_element_iteration_command.rs", PBF+"bounding_box_calculator.rs"], [("error propagation through the worker pool", PBF+"reader.rs parallel_for_each")],
  ["result of Reader::parallel_for_each, count_objects, BoundingBoxCalculator::calc"])

p("C29", "Failing file operations while writing are reported",
  "When creating or writing a file fails at any point, the PBF writer, the parallel writer and the dump writer return an error from one of the calls up to and including closing; they neither panic nor report success. A write that is interrupted or only accepts part of the data is continued: the calls succeed and the files are complete.",
  ["crash_points", "fault_sequences"], "every operation at which a file can fail, once or from then on",
  "No test makes a file operation fail.",
  [PBF+"writer.rs", PBF+"parallel_writer.rs", AD+"table_data_writer.rs", AD+"table_data_writers.rs", AD+"writer.rs"], [("blob writing", PBF+"writer.rs write_blob"), ("table files", AD+"table_data_writer.rs close"), ("writing command of the parallel writer", PBF+"parallel_writer.rs")],
  ["results of Writer, ParallelWriter and apidb_dump Writer calls", "the files after a successful close"])
p("C30", "Failing file operations while reading never shorten the result",
  "When opening or reading a file fails while a PBF file or a dump is read, the failure is reported by an error or a panic; reading never completes normally with fewer or other elements than the files hold. Short and interrupted reads change nothing.",
  ["crash_points", "fault_sequences"], "every operation at which a file can fail, once or from then on",
  "No test makes a file operation fail.",
  [PBF+"blob_iterator.rs", PBF+"file_block.rs", PBF+"reader.rs", "src/osm/apidb_dump/read/table_reader.rs", "src/osm/apidb_dump/read/element_iterator.rs"], [("table iteration", "src/osm/apidb_dump/read/table_reader.rs TableIterator::next"), ("block framing", PBF+"blob_iterator.rs"), ("block bodies", PBF+"file_block.rs from_blob_desc")],
  ["Reader::elements, blocks, count_objects, parallel_for_each; the dump reader's elements"])
p("C31", "Readers and writers in one process do not disturb each other",
  "Every reader yields the content of its own file and every writer produces its own output, whatever other readers and writers are used before, after or interleaved with it: iterating one reader repeatedly or with several iterators at once always yields the same elements, and writing to a place that already holds a file or a dump gives the same result as writing to a new one.",
  ["histories", "inputs"], "every interleaving of the operations of two readers or writers",
  "Tests use one reader or writer at a time on fresh paths.",
  [PBF+"reader.rs", PBF+"writer.rs", PBF+"parallel_writer.rs", AD+"writer.rs", "src/osm/apidb_dump/read/reader.rs"], [("thread-local state of the parallel writer", PBF+"parallel_writer.rs"), ("file creation", PBF+"writer.rs from_file_info"), ("table files", AD+"table_data_writer.rs new")],
  ["elements of interleaved iterators", "files of interleaved writers"])

p("C32", "Copies and conversions of files keep every element",
  "Copying a PBF file of any producer - its elements read and written by the sequential writer, or handed by parallel workers through per-thread accumulators to the parallel writer - yields a file with the same header information and the same elements (in sorted order for the parallel one), whatever metadata the source lacks and however its elements are coded, as long as positions lie on the 1e-7 degree grid and times are whole seconds. Converting a file with complete metadata to a database dump and back loses nothing either.",
  ["inputs", "schedules"], "every well-formed source with these positions and times, every distribution of elements over blocks, every schedule of the workers",
  "The pipelines are only run as examples; the copies are never compared with their sources.",
  [PBF+"reader.rs", PBF+"osm_data.rs", PBF+"writer.rs", PBF+"parallel_writer.rs", PBF+"thread_local_accumulator.rs", AD+"writer.rs", "src/osm/apidb_dump/read/element_iterator.rs"], [("decoding", PBF+"osm_data.rs"), ("encoding", PBF+"dense_group_builder.rs"), ("hand-over at sentinels", PBF+"thread_local_accumulator.rs")],
  ["Reader::elements of the source and of the copy", "Reader::info of both"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
