#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that titles, statements and anchors stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Every PBF blob is processed exactly once and written in file order",
  "When a PBF file is processed, each blob of the file (type, bytes and position) is handed to exactly one worker, and everything the workers produce reaches the writer exactly once, in the order of the blobs in the file. This holds for every number of workers, every relative speed of reader, workers, reorderer and writer, and files of any length.",
  ["schedules", "inputs", "configurations"], "all interleavings of reader, N workers, reorder stage and writer for small files; all base orders and change points for long ones",
  "No test runs the pipeline at all; any test would see one schedule.",
  ["internal/pbf/process.go", "internal/pbf/reorder.go"],
  [("sequence numbers on blobs and a reorder buffer", "internal/pbf/reorder.go"), ("channel hand-over and close order", "internal/pbf/process.go processFileWork")],
  [("blob index", "position of a blob in the file", "internal/pbf/process.go"), ("reorder buffer", "results that arrived early", "internal/pbf/reorder.go")],
  ["ProcessFileAsync's work and write functions"])

p("C02", "Output depends only on input and options, not on workers or scheduling",
  "For decompress, tagfilter, rewritenodes, nodeindex, wayindex and relindex the bytes of the output file are a function of the input file(s) and the options other than the worker count: any number of workers and any interleaving of their steps gives the same bytes, and no two workers ever disturb each other's data.",
  ["schedules", "inputs", "configurations"], "all small inputs of a corpus x 1..3 workers x every schedule (exhaustive at synchronisation level, one preemption at every statement)",
  "No test runs a command; the buffers recycled between workers only matter under particular interleavings.",
  ["cmd/*/", "internal/pbf/process.go", "internal/pool/bytebuffer.go"],
  [("per-worker state, buffers returned only after use", "cmd/*/*/*_worker.go"), ("reordering by blob index", "internal/pbf/reorder.go")],
  observe=["output files of the commands"])

p("C03", "Every run terminates cleanly, also when cancelled at any moment",
  "On a well-formed input (including one with no entities of a kind, or an empty secondary index) with at least one worker, each of the file-processing commands ends by itself under every schedule, without deadlock, crash or workers left running. If the run is cancelled at any moment it also ends by itself without crashing and without its temporary files, and what decompress, tagfilter and single-pass rewritenodes leave as output is the complete result for a prefix of the input's blobs.",
  ["schedules", "histories", "inputs"], "every schedule of small runs x every point at which the cancel can arrive",
  "Tests never cancel, and termination needs all schedules.",
  ["internal/pbf/process.go", "internal/pbf/reorder.go", "internal/icontext/context.go", "cmd/rewritenodes/rewritenodes.go", "cmd/relindex/relindex.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go"],
  [("select on context in the reader, close cascade", "internal/pbf/process.go"), ("context poll in copy loops", "cmd/*index/*indexer/*_writer.go")],
  observe=["process exit, files left behind"])

p("C04", "Node index: looking up any node id gives exactly its location, or not found",
  "For a PBF file whose dense nodes have strictly ascending ids (0 and up) and valid coordinates, the node index built from it gives for every node id the packed location of that node, computed from the block's granularity and offsets, and says not found for every other id. This holds for every pattern of gaps in the ids, every division of nodes over groups and blocks, every block order kind (blocks without nodes in between) and every lookup hint.",
  ["inputs", "histories"], "all id sets within small windows x all splits into blocks and groups x all ids and hints looked up",
  "There are no tests of the node index.",
  ["cmd/nodeindex/indexer/nodeindexer_worker.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "internal/nodeindex/nodesubindex.go", "internal/nodeindex/nodeindex.go", "internal/nodeindex/index_element.go"],
  [("runs of ids with a zero filler over gaps of one", "nodeindexer_worker.go"), ("hint, then binary search", "nodesubindex.go")],
  [("element table", "first id, count and offset of each run", "node index file"), ("location table", "packed locations, 0 for a gap", "node index file")],
  ["node index file; NewNodeIndex/SubIndex/FindNode"])

p("C05", "Rewriting in several passes gives the same as rewriting in one pass",
  "Dividing a node index into any number of passes covers every indexed node in exactly one pass: a lookup in the pass that holds the id gives its location, earlier passes leave the id alone. So rewritenodes gives the same output bytes whatever memory target, and hence number of passes, is chosen, and relindex and dump tools agree for any number of passes.",
  ["inputs", "configurations"], "all small indexes (element-count patterns, total 0..8 locations) x all pass counts",
  "There are no tests of sub-indexes, and integer division leaves remainders only for some sizes.",
  ["internal/nodeindex/nodeindex.go", "internal/wayindex/wayindex.go", "cmd/rewritenodes/rewritenodes.go"],
  [("division of the location table over passes", "internal/nodeindex/nodeindex.go SubIndex"), ("pass files", "cmd/rewritenodes/rewritenodes.go")],
  observe=["SubIndex ranges; rewritenodes output"])

p("C06", "Way index: looking up any way id gives exactly its refs, or not found",
  "For a file whose ways have strictly ascending positive ids and refs that are non-zero, the way index built from it with any alignment gives, for every way id, the way's refs in order with consecutive duplicates removed (none for a way without refs), and says not found for every other id. This holds for every hint, any ref magnitudes and signs, any division over blocks and any number of passes, where a way is found in exactly the pass that holds it.",
  ["inputs", "configurations"], "all small ref lists over a boundary alphabet x alignments 0..6 x block splits x passes x hints",
  "There are no tests of the way index.",
  ["cmd/wayindex/wayindexer/wayindexer_worker.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "internal/wayindex/wayindex.go", "internal/wayindex/subindex.go", "internal/pb/64.go"],
  [("zero-terminated zigzag deltas padded to the alignment", "wayindexer_worker.go"), ("id and offset packed into one word, binary search", "internal/wayindex")],
  observe=["way index file; NewWayIndex/SubIndexWithScaledPass/FindLocations"])

p("C07", "Relation index holds every relation with its ways' locations, for any passes",
  "The relation index lists every relation of the input in file order, and for each of them its way members in order, each with exactly the locations the way index has for that way (none if the way index does not have it); node and relation members leave no trace. The bytes are the same for any number of passes, and a file without relations, or a way index without ways, gives a valid result.",
  ["inputs", "configurations"], "all small member lists x present and missing ways x passes 1..6",
  "There are no tests of relindex.",
  ["cmd/relindex/relindex.go", "cmd/relindex/relindexerinit/relindexer_worker.go", "cmd/relindex/relindexerinit/relindexer_writer.go", "internal/wayindex/wayindex.go"],
  [("negative ids mark ways still to be filled in", "cmd/relindex/relindex.go rewrite")],
  observe=["relation index file"])

p("C08", "rewritenodes replaces indexed refs by locations and changes nothing else",
  "In the output of rewritenodes each way ref that the node index has is replaced by the packed location, refs it does not have and refs that already are locations stay as they are, in the same order; ids, tags, nodes, relations, strings, block order, granularity and offsets are those of the input. Blocks without ways and header blobs come through unchanged byte for byte, and rewriting the output again with the same index changes nothing.",
  ["inputs", "configurations"], "all small way/ref/index combinations x block layouts",
  "There are no tests of rewritenodes.",
  ["cmd/rewritenodes/rewriter/noderewriter_worker.go", "cmd/rewritenodes/rewriter/noderewriter_writer.go", "internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/t/way.go"],
  [("raw pass-through of everything but ways", "internal/t/primitive_group.go"), ("negative refs are locations", "noderewriter_worker.go")],
  observe=["output PBF"])

p("C09", "tagfilter drops exactly the listed node tags and untagged nodes, nothing else",
  "tagfilter removes from nodes exactly the tags whose key is on its delete list or starts with a prefix on it, and drops exactly the nodes left without tags. Everything else is kept: the other tags with their values, node ids and positions (to 100 nanodegrees), all ways and relations with all of their tags, refs, members, types and roles, header blobs byte for byte, and the order; a data block vanishes only if nothing in it is left.",
  ["inputs"], "all listed keys and near misses x all small tag sets x block layouts, granularities and offsets",
  "There are no tests of tagfilter.",
  ["cmd/tagfilter/tagfilterer/tagfilterer_worker.go", "cmd/tagfilter/tagfilterer/tagfilterer_writer.go", "internal/t/primitive_block_nodes.go", "internal/t/primitive_block_ways.go", "internal/t/primitive_block_relations.go", "internal/t/string_table_builder.go"],
  [("key list and prefix list", "tagfilterer_worker.go"), ("re-encoding through string table builder", "internal/t")],
  observe=["output PBF"])

p("C10", "decompress keeps every payload and stores it uncompressed",
  "The output of decompress has the input's blobs in the input's order with the same types and byte-identical uncompressed payloads of any size, empty ones included, each stored raw. It is a valid PBF that every command reads as it reads the original, and decompressing it again gives the same bytes.",
  ["inputs"], "all small payload sequences x raw/zlib x sizes around every length-encoding and buffer threshold",
  "There are no tests of decompress.",
  ["cmd/decompress/decompressor/decompressor_worker.go", "internal/t/blob.go", "internal/t/blob_header.go", "internal/pool/bytebuffer.go"],
  [("blob re-encoding", "internal/t/blob.go")], observe=["output PBF"])

p("C11", "Protobuf primitives: decode(encode(x)) = x for every value and length",
  "Each integer, packed, packed-delta, zero-terminated, buffer, string and embedded-message encoding agrees byte for byte with the protobuf wire format for values of its type, decodes to exactly the value encoded, and advances the read position to exactly the end of what was encoded. Appending to a non-empty buffer leaves what was there alone, and a length that does not fit its reserved space is refused, never written wrong.",
  ["inputs"], "every value around every power of two, all short sequences over a boundary alphabet, all length thresholds",
  "No test covers the codec; the ones nearby use single-byte encodings only.",
  ["internal/pb/varint.go", "internal/pb/32.go", "internal/pb/64.go", "internal/pb/buffer.go", "internal/pb/embed.go"],
  [("unrolled varint code", "internal/pb/varint.go"), ("reserved length prefixes", "internal/pb/embed.go")], observe=["internal/pb functions"])

p("C12", "A block read and written back keeps its content under every skip option",
  "Reading a primitive block and writing it again gives a block with the same content, whichever of the string table, dense nodes, ways and relations are parsed and whichever are carried through unparsed; only the optional metadata (info, dense info) may be dropped from parts that are parsed. Converting to the high-level node, way and relation form gives the true absolute positions, tags, refs, members and roles, and building a block from that form and reading it back gives the same entities.",
  ["inputs", "configurations"], "all small blocks x 16 skip combinations x defaults/non-defaults of every optional field",
  "The tests read and write string tables only.",
  ["internal/t/primitive_block.go", "internal/t/primitive_group.go", "internal/t/dense_nodes.go", "internal/t/way.go", "internal/t/relation.go", "internal/t/blob.go", "internal/t/blob_header.go", "internal/t/primitive_block_nodes.go", "internal/t/primitive_block_ways.go", "internal/t/primitive_block_relations.go"],
  [("raw fields next to parsed ones", "internal/t/primitive_group.go")], observe=["internal/t readers and writers"])

p("C13", "String tables resolve every string, each stored once, blank at index 0",
  "For any multiset of strings added, in any order, the finished string table holds each distinct string exactly once, has the empty string at index 0, orders the others by how often they were added, and gives for each string the index at which it is stored. The key/value lists made for a tag map resolve back to that map and do not depend on map iteration order, and tables keep all their strings when read back.",
  ["inputs", "histories"], "all sequences of up to 6 additions over a small alphabet including the empty string",
  "The tests add a handful of strings, never the empty one.",
  ["internal/t/string_table_builder.go", "internal/t/string_table.go"],
  [("counts, then sorting by count", "internal/t/string_table_builder.go")], observe=["string table of written blocks"])

p("C14", "Location packing is lossless for every coordinate",
  "Packing a longitude and a latitude in 1e-7 degrees (longitude within +-180 degrees, latitude within +-90) and unpacking again gives the same pair; bits of the longitude are the even ones and bits of the latitude the odd ones, lowest first. A packed node location is always negative (never mistaken for a node id or for absent), and distinct positions have distinct packed values.",
  ["inputs"], "all bit pairs, all pairs of boundary values, all single-byte patterns in every byte position",
  "The tests try a handful of values.",
  ["internal/morton/morton.go", "cmd/nodeindex/indexer/nodeindexer_worker.go"],
  [("table-driven bit interleaving", "internal/morton/morton.go")], observe=["morton.Encode/Decode/DecodeLocation"])

p("C15", "Packed index entries hold their values exactly or refuse them",
  "A node index entry gives back exactly the count and the offset it was made from, and a way index entry exactly the way id and the offset, for every value in range; a value out of range is refused with a failure and never stored as something else. First, last, count, membership and offset of an id range are consistent for every id.",
  ["inputs"], "all values around 0, every power of two and every limit, in all combinations",
  "There are no tests of either entry type.",
  ["internal/nodeindex/count_offset.go", "internal/nodeindex/index_element.go", "internal/wayindex/indexdata.go"],
  [("range checks before packing", "NewCountOffset, MakeIndexData")], observe=["entry constructors and accessors"])

p("C16", "A run that cannot write its whole output never reports success",
  "If any write to any output or temporary file fails or is cut short (disk full, file size limit, I/O error), or an output cannot be created, the command exits with a non-zero status. A run that exits with zero has written the complete output.",
  ["fault_sequences", "inputs"], "every write of each command fails in turn, with each kind of failure",
  "Tests never make a write fail.",
  ["internal/iio/wrappers.go", "cmd/*/"],
  [("checked I/O wrappers that panic", "internal/iio/wrappers.go")], observe=["exit status and output file of the binaries"])

p("C17", "Cut-off input is never mistaken for a complete one",
  "If the input PBF, node index or way index is cut off at any byte, the command that reads it exits with a non-zero status, or its output is the one for the complete input, or (for a PBF cut exactly between two blobs) the one for the blobs that remain. It never reports success with an output that misses or alters anything else.",
  ["fault_sequences", "inputs"], "every truncation point of each input file of each command",
  "Tests never truncate.",
  ["internal/pbf/process.go", "internal/t/blob.go", "internal/nodeindex/nodeindex.go", "internal/wayindex/wayindex.go"],
  [("slice bounds against the mapped size", "internal/pbf/process.go")], observe=["exit status and output of the binaries"])

p("C18", "Counts and statistics are exact for every schedule",
  "blockcount reports the number of blobs, and entitycount the number of blobs, nodes, ways, way refs and relations and the largest node id, way id, relation id and ref count, exactly, for any number of workers and any interleaving. The hit and miss counters that rewritenodes and relindex print account for every lookup made: none lost, none counted twice.",
  ["schedules", "inputs"], "all schedules of small runs; one preemption at every statement",
  "No test runs the counting commands, and lost updates need particular interleavings.",
  ["cmd/blockcount/blockcount.go", "cmd/entitycount/entitycount.go", "internal/nodeindex/nodesubindex.go", "internal/wayindex/subindex.go"],
  [("local counts merged with atomic adds", "cmd/entitycount"), ("compare-and-swap maximum", "cmd/entitycount atomicSetMaximum")], observe=["standard output"])

p("C19", "entityfind prints exactly the entities asked for",
  "entityfind prints each node, way and relation of the file whose id is among those asked for, exactly once and with its true id, tags, position, refs, members, types and roles, and nothing else, for any number of workers.",
  ["schedules", "inputs"], "all small files x all id sets x schedules",
  "No test runs entityfind.",
  ["cmd/entityfind/entityfind.go", "internal/t/primitive_block_nodes.go", "internal/t/primitive_block_ways.go", "internal/t/primitive_block_relations.go"],
  [("high-level conversion and id match", "cmd/entityfind/entityfind.go")], observe=["standard output"])

p("C20", "The dump tools show exactly what the index holds",
  "dumpnodeindex prints for each indexed id its location in degrees or that it is a gap, in order, by direct reading and by searching with the same result, over exactly the requested sub-index and element range. dumpwayindex prints each way with its refs, and searching finds every way of the sub-index; together the sub-indexes of any pass count print every node of the index exactly once.",
  ["inputs", "configurations"], "all small indexes x all flag combinations x sub-index choices",
  "No test runs the dump tools.",
  ["cmd/dumpnodeindex/dumpnodeindex.go", "cmd/dumpwayindex/dumpwayindex.go"],
  [("reading and searching the same table", "cmd/dump*index")], observe=["standard output"])

p("C21", "A pooled buffer has one owner and the size asked for",
  "A buffer borrowed from the buffer pool has exactly the requested length, is not handed to anyone else until it is returned, and requests of any size in any order and from any number of workers succeed. Buffers that were not borrowed never enter the pool.",
  ["histories", "schedules"], "all sequences of get/put up to a depth over sizes around the thresholds, and all interleavings of two borrowers",
  "There are no tests of the pool.",
  ["internal/pool/bytebuffer.go", "internal/t/blob.go"],
  [("capacity check after getting from the pool", "internal/pool/bytebuffer.go"), ("borrowed flag", "internal/pool/bytebuffer.go")], observe=["ByteSlicePool.Get/Put"])

p("C22", "The progress display converges to the set of live workers",
  "After any history of workers starting and finishing, in any interleaving with refreshes of the display, the registry lists exactly the workers that are live, and a refresh after the last change shows exactly one line for each of them and nothing else. The line of a worker that is still there is kept, not made anew.",
  ["schedules", "histories"], "all interleavings of starting/finishing workers and a refreshing display",
  "There are no tests of the tracker.",
  ["internal/tracker/worker_tracker.go", "internal/tracker/widget_workers.go"],
  [("version counter bumped after each change", "internal/tracker/worker_tracker.go")], observe=["WorkerStates/Version/RefreshStates"])

p("C23", "A finished run leaves only the requested output and untouched inputs",
  "After any successful run the only file that has appeared or changed is the requested output: no pass, location or other temporary file is left in the output directory, and inputs and indexes are unchanged. What the output path held before has no influence on the result.",
  ["inputs", "configurations"], "all commands x pass counts x pre-existing longer/shorter outputs and stale temporary files",
  "Tests never look at the file system.",
  ["cmd/rewritenodes/rewritenodes.go", "cmd/relindex/relindex.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "internal/iio/wrappers.go"],
  [("truncating create, removal of pass files", "internal/iio/wrappers.go")], observe=["directory listing"])

p("C24", "Reported progress never goes back, never exceeds the file, ends at its size",
  "The position reported while a file is processed never decreases and never exceeds the file size; its reported state only moves from initializing through processing to shutting down. When an uncancelled run has finished the position equals the file size.",
  ["schedules"], "all interleavings of an observer with the pipeline",
  "No test reads the progress.",
  ["internal/pbf/process.go"],
  [("atomic position", "internal/pbf/process.go")], observe=["At/Max/CurrentState"])

p("C25", "The progress line always shows its whole text, whatever it contains",
  "For every text (percent signs included), width and percentage the markup made for a progress line displays as exactly that text, padded with blanks to the width. The highlighted part is a prefix whose length is the percentage of the width, rounded down, whenever that is less than the length of the line.",
  ["inputs"], "all texts over a small alphabet with % up to length 5 x widths x percentages",
  "There are no tests of the display.",
  ["internal/ui/format.go", "internal/ui/widget/widget_process_state.go", "internal/ui/widget/widget_pass_progress.go"],
  [("escaping of percent signs", "internal/ui/format.go")], observe=["rendered markup"])

p("C26", "The whole chain gives each relation the true geometry of its ways",
  "Running nodeindex, rewritenodes, wayindex and relindex one after the other, on the original file or on what decompress makes of it, with tagfilter applied to the file that is rewritten, before or after rewriting, or not at all (the node index being that of the unfiltered file), with any passes and alignments, gives a relation index in which each way member of each relation has the packed locations of exactly its nodes as in the original file, consecutive equal ones merged, in order.",
  ["inputs", "configurations"], "all small maps (nodes, ways over them, relations over those) x chain variants",
  "No test connects two commands.",
  ["cmd/nodeindex", "cmd/rewritenodes", "cmd/wayindex", "cmd/relindex", "cmd/tagfilter", "cmd/decompress"],
  [("file formats shared between the commands", "ENCODING.md")], observe=["relation index file"])

p("C27", "An unfinished node index is never accepted as a finished one",
  "If building a node index is killed, fails or is cancelled at any point, the file at the output path is either refused by every command that opens it or is the complete index. A later complete build at the same path repairs it.",
  ["crash_points", "histories"], "a kill at every write, every cancel point, and a rebuild after each",
  "Tests never kill or cancel a build.",
  ["cmd/nodeindex/indexer/nodeindexer_writer.go", "internal/nodeindex/nodeindex.go"],
  [("version written last", "nodeindexer_writer.go"), ("version check on open", "internal/nodeindex/nodeindex.go")], observe=["NewNodeIndex on the leftover file"])

p("C28", "Results stay correct across every internal size threshold",
  "All of the above stays true when counts and sizes cross the sizes at which encodings, buffers and batches change: strings, blobs, ways, dense blocks and relation lists of any size the PBF format allows (ways up to 2000 refs of any magnitude and of up to 2 MiB, blocks up to 32 MiB), files and indexes of any length, past 2 and 4 GiB and 2^32 entries too. No such input makes a command fail or changes the meaning of its output.",
  ["inputs"], "every size n-1, n, n+1 around each threshold, per command",
  "Tests use inputs of a few bytes.",
  ["internal/pb/embed.go", "internal/t/way.go", "internal/t/dense_nodes.go", "internal/t/primitive_group.go", "cmd/relindex/relindex.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go", "internal/pool/bytebuffer.go", "internal/pbf/process.go", "internal/nodeindex", "internal/wayindex"],
  [("reserved length sizes", "internal/pb/embed.go"), ("1 MiB copy loop, 1,000,000 word flush", "cmd/*index")], observe=["outputs of the commands"])

p("C29", "A command line is carried out as written, or refused with nothing touched",
  "A command line that lacks a required option, has an unknown option or a positional argument, gives an option a value that is not a number of its kind, a number of workers, passes or megabytes below 1, an alignment below 0 or above 30, a timing not above 1, a negative refresh interval, start element or sub-index, or a sub-index without or not below the count of sub-indexes, is refused: the exit code is not 0, the reason is on stderr, nothing is on stdout, nothing is created or changed, and the command does not crash or hang. -h and --help print the options and touch nothing. Any other command line does what its options say however they are spelt (short, long, joined or with =) and ordered, an option left out having its default.",
  ["inputs", "configurations"], "all orders, spellings and subsets of the options of every command; every option with every value of a list of good and bad ones",
  "No test runs a command line.",
  ["cmd/decompress/args.go", "cmd/dumpnodeindex/args.go", "cmd/dumpwayindex/args.go", "cmd/blockcount/args.go", "cmd/entitycount/args.go", "cmd/entityfind/args.go", "cmd/nodeindex/args.go", "cmd/relindex/args.go", "cmd/rewritenodes/args.go", "cmd/tagfilter/args.go", "cmd/wayindex/args.go", "internal/ui/args.go", "internal/system", "internal/args"],
  [("option checks", "cmd/*/args.go"), ("display and system options", "internal/ui/args.go, internal/system")], observe=["exit code", "stdout", "stderr", "directory contents"])

p("C30", "The display changes nothing, and Ctrl-C stops the run",
  "With its display on, at any refresh tick, key press and resize and under any schedule, a command ends, with the same files, output and exit as with the display off, and without a crash, deadlock or goroutine left over. The screen is taken once and given back before the command ends; nothing is drawn after that and nothing is printed while the display is on. Ctrl-C cancels the run (what is left is as in C03); no other key and no resize does (Ctrl-A, which aborts the command, apart). At some moment the progress of the file, the workers and the writer are shown; at no moment are two passes shown at once, a worker more than once, more workers than there are, a block that does not exist, or more locations copied than there are.",
  ["schedules", "event timings"], "all schedules of the display alone and of small commands; a tick, key or resize at every step of priority schedules of longer ones",
  "There are no tests of the display.",
  ["internal/ui/ui.go", "internal/ui/widget", "internal/icontext", "cmd/nodeindex/nodeindex.go", "cmd/wayindex/wayindex.go", "cmd/relindex/relindex.go", "cmd/rewritenodes/rewritenodes.go", "cmd/tagfilter/tagfilter.go", "cmd/decompress/decompress.go"],
  [("event loop, start and stop", "internal/ui/ui.go")], observe=["output files", "stdout", "screen calls", "screen contents", "cancellation"])

p("C31", "No data race: threads touch shared memory only in an agreed order",
  "Under every schedule, with and without the display, with any number of workers and passes and when cancelled at any moment, two threads of a command touch the same memory, one of them writing it, only if both do so atomically or synchronisation puts one before the other: counters and states that workers, reader, writer and display share, buffers handed from thread to thread or given back to a pool, and the file state. Threads are registered with whoever waits for them before the wait can begin. So what a command does never depends on the memory model of the machine.",
  ["schedules", "cancel points", "event timings"], "happens-before of every memory access of every explored schedule: every file of the corpus under priority schedules, a change point or a cancel at every n-th step, long files, several passes, display ticks, keys and resizes",
  "The tests run without the race detector, and it would only see the schedules that happen.",
  ["internal/pbf/process.go", "internal/pool", "internal/ui", "internal/ui/widget", "internal/tracker", "cmd/blockcount/blockcount.go", "cmd/entitycount", "cmd/entityfind", "cmd/nodeindex/indexer", "cmd/wayindex/wayindexer", "cmd/relindex/relindexerinit", "cmd/rewritenodes/rewriter", "cmd/tagfilter/tagfilterer", "cmd/decompress/decompressor"],
  [("file state read by the display", "internal/pbf/process.go"), ("counters", "cmd/*")], observe=["memory accesses and synchronisation, through the race detector"])

p("C32", "How the data are encoded makes no difference to any result",
  "Two PBF files that say the same in different encodings give every command the same result (index bytes, counts, entities found, content of PBF outputs). That is: the fields of blob headers, blobs, blocks, groups, dense nodes, ways and relations come in any order; fields with a default value and empty lists are written or left out; varints are longer than they need be; the strings of a block come in any order (the blank first), unused and repeated ones among them; coordinates are split differently into granularity, offset and value; each blob is stored raw, with or without its size, or compressed with any level, window and division into pieces; groups without entities come before or after others.",
  ["inputs"], "every order of the fields of each kind of message; every combination of a few omitted or explicit defaults; every varint of a file; every order of the strings; every choice of compressed blobs, level, window and piece size; every granularity that divides the coordinates",
  "The tests encode nothing in more than one way.",
  ["internal/t", "internal/pb", "internal/pbf/process.go", "cmd/nodeindex/indexer", "cmd/wayindex/wayindexer", "cmd/relindex/relindexerinit", "cmd/rewritenodes/rewriter", "cmd/tagfilter/tagfilterer", "cmd/decompress/decompressor", "cmd/entitycount", "cmd/entityfind"],
  [("readers of blobs, blocks and entities", "internal/t")], observe=["output files", "stdout"])

p("C33", "What a run holds at once is bounded: pass data, temporary and open files",
  "With a memory target (-m), rewritenodes makes so many passes that none looks up more than that many megabytes of node locations (8 bytes each; a row of ids without gaps is not divided, and the last pass takes the remainder of the division, less than one location per pass), and at most one pass more than needed; without it, one. With -p, each pass of relindex takes at most its share of the way data, plus a way. At no moment of a run are there more than two temporary files, the one a pass reads and the one it writes. The files a run has open, the mappings of them and its threads are bounded by the number of workers: neither more blobs nor more passes make them more, under any schedule.",
  ["inputs", "schedules"], "node indexes of sizes around the multiples of a megabyte with every kind of id row and five targets; ways of seven size distributions with seven pass counts; every command with few and many blobs, workers and passes under priority schedules with change points, measured before every operation on a file",
  "No test runs a command, and none has a second pass.",
  ["cmd/rewritenodes/rewritenodes.go", "cmd/relindex/relindex.go", "internal/nodeindex", "internal/wayindex/wayindex.go", "internal/pbf/process.go", "cmd/nodeindex/indexer/nodeindexer_writer.go", "cmd/wayindex/wayindexer/wayindexer_writer.go"],
  [("number of passes", "cmd/rewritenodes/rewritenodes.go"), ("share of a pass", "internal/nodeindex/nodeindex.go")], observe=["temporary files of each pass", "open files", "mappings", "threads"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
