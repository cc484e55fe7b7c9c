package main

const (
	techSched = "stateless model checking of the real code: exhaustive exploration of schedules under a controlled scheduler"
	techSeq   = "bounded exhaustive exploration of inputs and operation sequences, executed on the real code against an independent reference"
	techFault = "exhaustive enumeration of fault and crash points, executed on the real commands"
	trust     = " Trusts the scheduler, the source instrumentation, the independent PBF and index reference, and the Go toolchain."
)

// unclaimed says why a property has no check.
var unclaimed = map[string]string{}

func cli(names ...string) []part {
	var ps []part
	for _, n := range names {
		ps = append(ps, part{name: n, pkg: "cli", mode: "sync"})
	}
	return ps
}

// detect: under the scheduler, with the race detector
func detect(names ...string) []part {
	var ps []part
	for _, n := range names {
		ps = append(ps, part{name: n, pkg: "cli", mode: "sync+race"})
	}
	return ps
}

func proc(names ...string) []part {
	var ps []part
	for _, n := range names {
		ps = append(ps, part{name: n, pkg: "proc", mode: "plain", bins: []string{"plain", "fault"}})
	}
	return ps
}

func plain(pkg string, names ...string) []part {
	var ps []part
	for _, n := range names {
		ps = append(ps, part{name: n, pkg: pkg, mode: "plain"})
	}
	return ps
}

// heavy gives the first of the parts most of the time.
func heavy(ps []part) []part {
	ps[0].weight = 4
	return ps
}

var assumeInput = []string{"the input is a well-formed PBF: at least one blob, dense nodes, ascending ids (nodes from 0, ways from 1), no unknown fields"}

var checks = map[string]*check{
	"C01": {
		level: "model_checking", technique: techSched, quick: 60, thorough: 400,
		note: "Every interleaving (up to commuting steps) of the real pipeline for up to 4 blobs and 3 workers; all base priority orders with one preemption point for up to 300 blobs and 5 workers; the base orders on 3000 and 70000 blobs." + trust,
		rule: "Every schedule of the real pipeline on small files (happens-before caching), all priority schedules with one change point on longer ones; non-trivial: at least two blobs and two threads that could run.",
		parts: []part{
			{name: "C01.dfs", pkg: "pipe", mode: "sync"},
			{name: "C01.prio", pkg: "pipe", mode: "sync"},
			{name: "C01.long", pkg: "pipe", mode: "sync"},
		},
	},
	"C02": {
		level: "model_checking", technique: techSched, quick: 160, thorough: 800,
		note:   "Every interleaving of synchronisation operations for files of 2 and 3 blobs with 2 workers (3 on the thorough tier) for all six commands; priority schedules with a preemption at synchronisation points and, in files of 3 blobs, after statements; the first permutations (100, thorough 2000) of every map that is iterated; the output must be byte-identical to that of one worker." + trust,
		rule:   "Every schedule of each command on files of 2 and 3 data blobs; priority schedules with one change point on 6 blobs and on the corpus with up to 33 workers; one preemption at enumerated statements; orders of map iteration; blocks of sizes around those of the buffers with change points spread over the run, threads giving way before file operations as well. Non-trivial: an execution that ended with an output to compare.",
		assume: assumeInput,
		parts:  append(cli("C02.dfs", "C02.prio", "C02.maps", "C02.sizes"), part{name: "C02.stmt", pkg: "cli", mode: "stmt"}),
	},
	"C03": {
		level: "model_checking", technique: techSched, quick: 150, thorough: 800,
		note:   "Termination under every schedule and with a cancellation at every point of every schedule for small files; with a cancellation at enumerated steps of all base priority schedules for the corpus." + trust,
		rule:   "Schedules x moment of cancellation; non-trivial: an execution that was judged to the end (crash, deadlock, leftover goroutines, leftover files, prefix of the output).",
		assume: assumeInput,
		parts: append(heavy(cli("C03.cancel", "C03.end", "C03.dfs", "C03.passes")),
			part{name: "C03.pipe", pkg: "pipe", mode: "sync"}),
	},
	"C04": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Every set of node ids below 7 (9) with every division over groups and blocks (sets of more than 5 (7): over blocks), every list of up to 3 (4) gaps out of seven from seven first ids, 192 combinations of granularity and offsets, 17 granularities with up to 441 pairs of offsets for positions between the hundreds of nanodegrees, runs around sizes up to 131072; every id and its neighbours looked up after every other; every list of up to 5 (6) elements of nine kinds with every id near it looked up with every hint." + trust,
		rule:   "A case is a set of node ids with a division over groups and blocks; non-trivial: the index was read back by the reference and every id was looked up after every other.",
		assume: assumeInput,
		parts:  append(cli("C04.sets", "C04.far", "C04.coords", "C04.fine", "C04.corpus"), plain("idx", "C04.find")...),
	},
	"C05": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Indexes of sizes around every multiple of the memory target with five memory targets; every list of up to 4 (5) element lengths with every interesting pass count, dumped pass by pass; every list of up to 4 (5) way lengths with nine pass counts; every list of up to 4 (5) elements of six kinds with every pass count, id and hint looked up." + trust,
		rule:   "A case is an index and a number of passes; non-trivial: the output was compared with the reference, with that of one pass, and every entry counted once.",
		assume: assumeInput,
		parts:  append(cli("C05.rewrite", "C05.dump", "C05.relindex"), plain("idx", "C05.find")...),
	},
	"C06": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "All ref lists up to length 2 (3) over twelve magnitudes and signs, every set of way ids below 7 (9) with every division over blocks, every list of up to 3 (4) gaps from four first ids, ways up to 2000 refs, eight alignments, several pass counts; every alignment up to 2^24 (2^26) for five ways; every set of up to 3 (6) of seven ways of up to 3 refs with seven alignments, every id and hint, and with six pass counts." + trust,
		rule:   "A case is a set of ways with an alignment and pass counts; non-trivial: the index was read back by the reference and every way and its neighbours looked up.",
		assume: assumeInput,
		parts:  append(cli("C06.refs", "C06.sets", "C06.far", "C06.align"), plain("idx", "C06.find")...),
	},
	"C07": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "All member lists up to length 3 over ten kinds of member, all lists of up to three kinds of group, five way indexes, many pass counts." + trust,
		rule:   "A case is a file, a way index and a pass count; non-trivial: the relation index was read back and compared.",
		assume: assumeInput,
		parts:  cli("C07.members", "C07.mixes"),
	},
	"C08": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "All ref lists up to length 3 over nine kinds of ref, all lists of up to three kinds of group with six block layouts, each rewritten twice." + trust,
		rule:   "A case is a file and a node index; non-trivial: the output was parsed and compared entity by entity, and rewritten again.",
		assume: assumeInput,
		parts:  cli("C08.refs", "C08.mixes"),
	},
	"C09": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Every key of the delete list and every key one edit away from it, on nodes, ways and relations; all pairs of tag lists; all ref lists and member lists up to length 3 (4) over thirteen values; all lists of up to three kinds of group with seven block layouts." + trust,
		rule:   "A case is a file; non-trivial: the output was parsed and compared entity by entity with the input.",
		assume: assumeInput,
		parts:  cli("C09.keys", "C09.combos", "C09.refs", "C09.mixes"),
	},
	"C10": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Payload sizes 0 to 300 and around every power of two that changes a length prefix, up to 32 MiB, compressed and raw; all lists of up to three kinds of blob; every command on original and decompressed corpus files." + trust,
		rule:   "A case is a file; non-trivial: every blob of the output was compared with its original and the output decompressed again.",
		assume: assumeInput,
		parts:  cli("C10.sizes", "C10.same"),
	},
	"C18": {
		level: "model_checking", technique: techSched, quick: 60, thorough: 600,
		note:   "Every interleaving of synchronisation operations on files of 2 and 3 blobs, one preemption at every statement (shared loads and stores apart), priority schedules with a change point on 6 blobs; every list of up to 4 kinds of group with three block layouts; the printed counters of every explored run compared with the reference." + trust,
		rule:   "A case is a file, a command, a number of workers and a schedule; non-trivial: every printed number was compared with the reference.",
		assume: assumeInput,
		parts:  append(cli("C18.dfs", "C18.prio", "C18.files", "C18.passes"), part{name: "C18.stmt", pkg: "cli", mode: "stmt"}),
	},
	"C19": {
		level: "model_checking", technique: techSched, quick: 90, thorough: 600,
		note:   "Every id set of the small corpus files, ids of every width, texts and positions of every kind, every interleaving on files of 2 and 3 blobs, one preemption at statements, up to 800 KB of output by workers that alternate; every printed line parsed and compared field by field." + trust,
		rule:   "A case is a file, a set of ids, a number of workers and a schedule; non-trivial: the printed entities were parsed and compared with the reference as a multiset.",
		assume: assumeInput,
		parts:  append(cli("C19.ids", "C19.values", "C19.range", "C19.sched", "C19.large"), part{name: "C19.stmt", pkg: "cli", mode: "stmt"}),
	},
	"C20": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Every list of up to 3 (4) shapes of run with and without gaps from four first ids: every element range, every sub-index of every count, by reading, by searching and by both; every list of up to 3 (4) way lengths with five alignments and every sub-index." + trust,
		rule:   "A case is an index and the options of a dump; non-trivial: every printed line was compared with the reference.",
		assume: assumeInput,
		parts:  cli("C20.nodes", "C20.ways"),
	},
	"C23": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Every command on every corpus file with every combination of seven earlier contents of the output path, three kinds of leftover temporary files and unrelated neighbours; priority schedules with a change point; several passes." + trust,
		rule:   "A case is a command, a file and the directory before the run; non-trivial: the whole directory after the run was compared.",
		assume: assumeInput,
		parts:  cli("C23.before", "C23.readers", "C23.sched", "C23.passes"),
	},
	"C26": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:   "Every pair of ways over four nodes (two at one place) with up to 4 (6) refs together in three layouts, the chain variants taken in turn; every pair of twelve places next to each other at three positions and two granularities; the corpus through all 36 variants of the chain; maps whose node index needs several passes." + trust,
		rule:   "A case is a map and a variant of the chain; non-trivial: the relation index at the end was compared with the geometry of the original file.",
		assume: assumeInput,
		parts:  cli("C26.maps", "C26.near", "C26.chains", "C26.big"),
	},
	"C28": {
		level: "exploration", technique: techSeq, quick: 170, thorough: 700,
		note:   "Fifteen kinds of length or count, each at every value of windows below 150 (300) and around 2^14 and 2^21 bytes; relation indexes around the buffer of relindex; location files around multiples of a megabyte; blocks near 32 MiB; files of many blobs; relation indexes and files of large and many blocks under priority schedules; sparse files around 2^31, 2^32 and 2^33 bytes, against the same blocks without the holes, node indexes of up to 5e9 locations with every count of passes of a list, way indexes of up to 36 GiB. Every command of the chain is run on every file." + trust,
		rule:   "A case is a file; non-trivial: the output of every command was compared with the reference.",
		assume: assumeInput,
		parts:  cli("C28.lengths", "C28.relindex", "C28.copies", "C28.blocks", "C28.blobs", "C28.orders", "C28.large", "C28.nodes", "C28.ways"),
	},
	"C32": {
		level: "exploration", technique: techSeq, quick: 90, thorough: 700,
		note:   "Encodings of two files with every kind of entity: every order of the fields of blocks, groups, dense nodes, ways and relations; defaults and empty lists written or left out, in combination; every varint longer than it need be; every order of the string table, unused and repeated strings; every choice of compressed blobs, compression levels, windows and pieces; the same coordinates with every granularity that divides them and many offsets. Nine commands are run on each." + trust,
		rule:   "A case is an encoding of a file; non-trivial: every command ran on it and its result was compared with that on the usual encoding.",
		assume: assumeInput,
		parts:  heavy(cli("C32.order", "C32.defaults", "C32.varints", "C32.strings", "C32.scale", "C32.blobs")),
	},
	"C16": {
		level: "fault_enumeration", technique: techFault, quick: 60, thorough: 600,
		note:   "Every file write of every command that writes a file fails in turn (ENOSPC, EIO, half written, disk full from then on, disk full after every single byte), every file creation fails in turn, with 1 and 3 workers and 1 to 3 passes, on corpus files; the real binaries are run with os and internal/poll replaced by copies with a fault point." + trust,
		rule:   "A case is a command, a file and a fault; non-trivial: the fault was reached.",
		assume: assumeInput,
		parts:  heavy(proc("C16.writes", "C16.big", "C16.create")),
	},
	"C17": {
		level: "fault_enumeration", technique: techFault, quick: 90, thorough: 800,
		note:   "Every command is run with its PBF, node index or way index cut off at every single byte of three to thirteen corpus files; runs of several passes with their PBF cut at every byte and their large node index near its ends and around boundaries." + trust,
		rule:   "A case is a command and the length an input is cut to; non-trivial: the command was run on it.",
		assume: assumeInput,
		parts:  proc("C17.pbf", "C17.indexes", "C17.passes"),
	},
	"C27": {
		level: "fault_enumeration", technique: techFault, quick: 90, thorough: 800,
		note:   "A build of a node index is killed before, half way through and after every write and after every single byte written, and every write or file creation fails in every way, on corpus files and one of 300000 nodes, with and without an old index at the path; every distinct leftover is given to the commands that read node indexes, every distinct directory is built in again; cancellation at every step of all base priority schedules and of every interleaving of small files." + trust,
		rule:   "A case is a file and a fault or a moment of cancellation; non-trivial: the build was interrupted and what it left was judged.",
		assume: assumeInput,
		parts:  append(heavy(proc("C27.kills", "C27.big")), cli("C27.cancel")...),
	},
	"C24": {
		level: "model_checking", technique: techSched, quick: 90, thorough: 600,
		note: "An observer reads the progress after every step of the pipeline in every base priority order with a change point or a cancellation, for files of 1 to 20 blobs and 1 to 3 workers; after every statement; and every interleaving of the pipeline with an observer that looks two or three times; sparse files around 2^31, 2^32 and 2^33 bytes." + trust,
		rule: "A case is a file, a number of workers and a schedule with an observer; non-trivial: every observation was judged.",
		parts: []part{
			{name: "C24.watch", pkg: "pipe", mode: "sync"},
			{name: "C24.dfs", pkg: "pipe", mode: "sync"},
			{name: "C24.stmt", pkg: "pipe", mode: "stmt"},
			{name: "C24.large", pkg: "pipe", mode: "sync"},
		},
	},
	"C11": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:  "Every value around 0 and every power of two and every one-byte pattern in every byte, in 20 buffers; every encoding of up to 3 (4) bytes; every list of up to 3 (4) values of 14 to 21 boundary values and lists up to 2 MiB; buffers of every length to 700 and around every threshold; every embedded length to 300, around every limit, nested in pairs, and every length prefix up to 2 MiB." + trust,
		rule:  "A case is a group of values, lists or lengths; non-trivial: all of it was encoded, compared with encoding/binary, decoded at five positions with four kinds of bytes behind it.",
		parts: plain("pbcodec", "C11.values", "C11.bytes", "C11.lists", "C11.buffers", "C11.embed"),
	},
	"C14": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:  "All pairs of some 1800 boundary values of both coordinates; every 29th (every) 32-bit value of each coordinate with the other at five values; all boundary positions through nodeindex and dumpnodeindex." + trust,
		rule:  "A case is a longitude with every boundary latitude, or a range of one coordinate; non-trivial: all of it was packed, compared with an independent bit spreading, and unpacked.",
		parts: append(heavy(plain("mortonx", "C14.each", "C14.pairs")), cli("C14.index")...),
	},
	"C15": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:  "All pairs of some 450 values around 0, every power of two and every limit, for both kinds of entry, in and out of range; every third (every) count; 180 id ranges at 12 offsets with every id around their ends; way ids around the limit and runs around powers of two through the commands." + trust,
		rule:  "A case is a value with all values of the other field, or an id range; non-trivial: every entry was read back, or refused because it was out of range.",
		parts: append(plain("packing", "C15.count", "C15.way", "C15.range"), cli("C15.ways", "C15.nodes")...),
	},
	"C21": {
		level: "model_checking", technique: techSched, quick: 60, thorough: 600,
		note: "Every history of up to 6 (7) gets and puts of seven sizes around four pool sizes, with every choice the underlying pool may make; every interleaving of two users with two gets and three users with one (two) get of four sizes each; every schedule with up to 4 preemptions between statements of two users with one get, 2 (4) with two; the commands on every short sequence of blob sizes; every command under base priority schedules with cancellations, watching that no buffer is given back twice." + trust,
		rule: "A case is a history, or a list of users with the sizes they ask for and a schedule; non-trivial: length, ownership up to the capacity and contents were checked after every step.",
		parts: []part{
			{name: "C21.seq", pkg: "poolx", mode: "sync"},
			{name: "C21.users", pkg: "poolx", mode: "sync"},
			{name: "C21.stmt", pkg: "poolx", mode: "stmt"},
			{name: "C21.cmds", pkg: "cli", mode: "sync"},
			{name: "C21.owners", pkg: "cli", mode: "sync"},
		},
	},
	"C22": {
		level: "model_checking", technique: techSched, quick: 60, thorough: 600,
		note: "Every history of up to 10 (11) starts, ends and refreshes of up to 5 workers (3 that come back: 8 (9)), up to 8 (9) of 4 workers drawn on a simulated screen; every schedule of up to 3 workers with up to 3 refreshes with bounded preemptions at synchronisation operations, and of 2 workers between statements." + trust,
		rule: "A case is a history, or a set of workers with a number of refreshes and a schedule; non-trivial: registry and lines were compared with the live workers after every step.",
		parts: []part{
			{name: "C22.users", pkg: "trackerx", mode: "sync", weight: 2},
			{name: "C22.seq", pkg: "trackerx", mode: "sync"},
			{name: "C22.screen", pkg: "trackerx", mode: "sync"},
			{name: "C22.stmt", pkg: "trackerx", mode: "stmt", weight: 2},
		},
	},
	"C25": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:  "All texts of up to 5 (6) characters of six, % and the letters of the markup among them, at every width to 8 (9) and every percentage on, just below and just above a cell; longer texts at every width to 32 and every fourth to 130 (every one to 300); the lines of a file in progress for every name of up to 3 (4) characters of four and for sparse files to 5 GiB, and of the commands for every share of 13 steps, drawn on a simulated screen at every width to 90 (200)." + trust,
		rule:  "A case is a start of a text, a line and a width, or a file name; non-trivial: text and highlight of every markup were compared with those wanted.",
		parts: append(plain("uix", "C25.markup", "C25.wide", "C25.lines"), plain("uicmds", "C25.cmds")...),
	},
	"C12": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:  "Every sequence of up to 2 (3) of 12 kinds of node, 30 kinds of way and 24 kinds of relation, and of up to 3 (4) of eleven groups, in seven shapes of block, read and written with all 16 combinations of skipped parts, twice, into buffers with and without room; the high-level form of each and a block built from it; every size of lists and strings to 150 (600) and around 2^14; every blob payload to 300 (1000) bytes and around 2^14 and 2^21; small blocks through rewritenodes and tagfilter." + trust,
		rule:  "A case is a sequence of entities or groups with all shapes and skip combinations, or a size; non-trivial: what was written was compared with the reference reader's reading of what was read.",
		parts: append(plain("tx", "C12.nodes", "C12.ways", "C12.rels", "C12.groups", "C12.sizes", "C12.blobs"), cli("C12.cmds")...),
	},
	"C13": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 600,
		note:  "Every sequence of up to 7 (8) additions of five strings, the empty one among them, with every tag map of up to 3 keys over the added strings for the short ones; every such map over four strings with every sequence of up to 5 (6) additions; 0 to 400 (2000) strings of different counts and lengths; tables of tens of thousands of strings; small files, and tables of up to 200000 (2^21) strings used by each kind of entity, through tagfilter. Map iteration order itself is Go's to choose: each map is used repeatedly, filled in different orders." + trust,
		rule:  "A case is a start of a sequence of additions or a tag map with all sequences; non-trivial: every table, index and key/value list was judged.",
		parts: append(plain("tx", "C13.adds", "C13.maps", "C13.many"), cli("C13.cmds", "C13.wide")...),
	},
	"C29": {
		level: "exploration", technique: techSeq, quick: 60, thorough: 300,
		note:  "For every command: every order of its options (for more than five: every 37th on the quick tier) in rotating spellings, every pair of spellings, every subset of the options in four spellings, every option with every value of a list of good and bad ones in every spelling, stray arguments and help at every place; run as real binaries in a directory with an old output." + trust,
		rule:  "A case is a command line; non-trivial: it was judged as refused without a trace, as help, or as doing what the plainest spelling does.",
		parts: proc("C29.lines"),
	},
	"C30": {
		level: "model_checking", technique: techSched, quick: 170, thorough: 650,
		note:  "The display alone: every schedule of start, ticks, keys, resizes and stop. Every command on a file of three blobs with its display on: every schedule without events (with Ctrl-C for the first command, up to a bound, on the quick tier), a tick or user action at every step of priority schedules, two of them at every pair of steps (every n-th on the quick tier), and events at the will of the scheduler with one change of priority. The screen is a simulated one and the time a stand-in, through the overlay." + trust,
		rule:  "A case is a command, a file, a number of workers and what the user does; non-trivial: the run ended and its files, output and use of the screen were judged.",
		parts: []part{{name: "C30.alone", pkg: "cli", mode: "ui"}, {name: "C30.crowd", pkg: "cli", mode: "ui"}, {name: "C30.passes", pkg: "cli", mode: "ui"}, {name: "C30.dfs", pkg: "cli", mode: "ui"}, {name: "C30.events", pkg: "cli", mode: "ui"}, {name: "C30.pairs", pkg: "cli", mode: "ui"}, {name: "C30.changes", pkg: "cli", mode: "ui"}},
	},
	"C31": {
		level: "model_checking", technique: techSched + " The program is built with the race detector, to which the scheduler is invisible: only what the program itself does orders its threads.", quick: 140, thorough: 700,
		note:   "Every explored schedule is judged on the happens-before order of all its memory accesses, so one schedule stands for every one with the same order: every command on every corpus file with 1, 2 and 5 workers under several priorities, with one change of priority or a cancel at every n-th step on 6 blobs, on 70 blobs, on blocks larger than the buffers there are, over several passes, and with the display on under ticks, keys and resizes at the will of the scheduler. Memory mapped from files is not seen by the detector." + trust,
		rule:   "A case is a command, a file, a number of workers, what the user does and a schedule; non-trivial: the run was observed by the race detector to its end.",
		assume: assumeInput,
		parts:  append(detect("C31.sched", "C31.changes", "C31.cancel", "C31.long", "C31.sizes", "C31.passes"), part{name: "C31.display", pkg: "cli", mode: "ui+race", weight: 2}),
	},
	"C33": {
		level: "model_checking", technique: techSched + " What a run holds is measured before every operation on a file; what a pass has looked up, on the files it leaves to the next one.", quick: 140, thorough: 700,
		note:   "Nine (15) sizes of node index around the multiples of a megabyte with three lengths of id rows and five memory targets; eight numbers of ways of seven kinds with three alignments and seven pass counts; every command on 1, 6 and 40 blocks with 1, 2 and 4 workers and up to 14 passes, under every priority with changes at points spread over the run, operations on files and their names among them." + trust,
		rule:   "A case is an index, a target or number of passes and a schedule; non-trivial: temporary files, open files, mappings and threads were counted before every operation on a file, and the refs found in each pass from what the passes left.",
		assume: assumeInput,
		parts:  cli("C33.memory", "C33.share", "C33.held", "C33.passes"),
	},
	// not in the manifest: see tools/selftest.sh
	"SELF": {quick: 120, thorough: 600, parts: []part{{name: "SELF.race", pkg: "selfx", mode: "sync+race"}, {name: "SELF.dfs", pkg: "selfx", mode: "sync"}, {name: "SELF.maps", pkg: "selfx", mode: "sync"}}},
}
