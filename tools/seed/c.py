from mk import mk

mk("c29-int-ids", "C29", {"cmd/entityfind/args.go":[
('	EntityID  []uint64 `short','	EntityID  []int64  `short'),
],"cmd/entityfind/entityfind.go":[
("func isIn(ids []uint64, id uint64) bool","func isIn(ids []int64, id int64) bool"),
("func findEntity(ids []uint64) pbf.WorkFunc","func findEntity(ids []int64) pbf.WorkFunc"),
("isIn(ids, uint64(n.Id))","isIn(ids, int64(n.Id))"),
("isIn(ids, uint64(w.Id))","isIn(ids, int64(w.Id))"),
("isIn(ids, uint64(r.Id))","isIn(ids, int64(r.Id))"),
]},
"A negative entity id, written so that the parser does not take it for an option (-e=-5).",
"entityfind takes ids no entity can have instead of refusing them.",
py='''
pbf(P("in.pbf"), block(N((5, 1, 1, {}))))
for a in ("--entity-id=-5", "-e=-5", "-e-5"):
    p = cmd("entityfind", "-i", P("in.pbf"), a)
    check("%s is refused" % a, p.returncode != 0 and p.stdout == b"" and p.stderr != b"", True)
check("an id", ok("entityfind", "-i", P("in.pbf"), "-e", "5").count("HLNode"), 1)
''')

mk("c29-nothing", "C29", {"internal/args/help.go":[
("	if flagError.Type != flags.ErrHelp { // Did not print the help message\n","	if flagError.Type == flags.ErrRequired && len(os.Args) == 1 {\n		return true // nothing given at all: whoever does that wants help\n	}\n\n	if flagError.Type != flags.ErrHelp { // Did not print the help message\n"),
('import (\n','import (\n	"os"\n\n'),
]},
"A command line without anything on it.",
"A command without its required options prints its help and reports success.",
py='''
for c in ("blockcount", "dumpwayindex", "entityfind", "wayindex"):
    p = subprocess.run([os.path.join(BIN, c)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    check("%s without options" % c, (p.returncode != 0, p.stdout), (True, b""))
''')

mk("c29-try-profile", "C29", {"internal/system/args.go":[
('		errors = append(errors, "mem-profile-rate requires mem-profile")\n	}\n','		errors = append(errors, "mem-profile-rate requires mem-profile")\n	}\n	for _, fn := range []*string{opts.CpuProfile, opts.MemProfile} {\n		if fn != nil { // it is a pity to find out at the end of a long run\n			if f, err := os.Create(*fn); err != nil {\n				errors = append(errors, err.Error())\n			} else {\n				_ = f.Close()\n			}\n		}\n	}\n'),
('package system\n','package system\n\nimport (\n	"os"\n)\n'),
]},
"A profile is asked for, and something else on the command line is refused.",
"A refused command line has emptied (or created) the profile file.",
py='''
pbf(P("in.pbf"), block(N((5, 1, 1, {}))))
open(P("prof"), "w").write("precious")
for c, a in (("entitycount", ["stray"]), ("blockcount", ["-w", "0"]), ("dumpnodeindex", ["--start-element=-1"])):
    for o in ("--mem-profile", "--cpu-profile"):
        p = cmd(c, "-i", P("in.pbf"), o, P("prof"), *a)
        check("%s %s is refused" % (c, a), p.returncode != 0, True)
        check("the file", open(P("prof")).read(), "precious")
''')

mk("c30-quit-first", "C30", {"internal/ui/ui.go":[
("	close(u.shutdown)\n	u.wg.Wait()\n	u.app.Quit()\n	if err := u.app.Wait(); err != nil {\n		panic(err)\n	}\n","	u.app.Quit()\n	if err := u.app.Wait(); err != nil {\n		panic(err)\n	}\n	close(u.shutdown)\n	u.wg.Wait()\n"),
]},
"The refresh interval is so short (or the display so slow) that the event queue is full when the display ends.",
"The ticker is still waiting to post an event when nobody takes events any more, so the command hangs.",
py='''
pbf(P("in.pbf"), block(N((5, 1, 1, {"a": "b"}))))
for i in range(10):
    code, out, same = tty("nodeindex", "-i", P("in.pbf"), "-o", P("out"), "-r", "1ns", timeout=20)
    check("exit", code, 0)
''')

mk("c30-early-cancel", "C30", {"internal/ui/ui.go":[
("		case tcell.KeyCtrlC:\n			u.cancel()\n			return true\n","		case tcell.KeyCtrlC:\n			if len(u.Widgets()) == 0 {\n				break // nothing has started yet\n			}\n			u.cancel()\n			return true\n"),
]},
"Ctrl-C before the lines of the display have been set up (ReplaceWidgets posts a function to the event loop).",
"An early Ctrl-C is lost and the run goes on.",
pkg="internal/ui", go='''
package ui

import (
	"testing"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"
)

func TestZZDemo(t *testing.T) {
	n := 0
	u := &normalUI{
		app:       &views.Application{},
		cancel:    func() { n++ },
		BoxLayout: views.NewBoxLayout(views.Vertical),
	}
	u.HandleEvent(tcell.NewEventKey(tcell.KeyRune, rune(tcell.KeyCtrlC), tcell.ModNone))
	if n != 1 {
		t.Fatalf("cancelled %d times", n)
	}
}
''')

mk("c30-say-cancelled", "C30", {"cmd/rewritenodes/rewritenodes.go":[
("	mainUI.Stop()\n\n	ix.PrintStats()\n","	if len(passTimes) < int(passes) {\n		fmt.Printf(\"Cancelled after %d of %d passes\\n\", len(passTimes), passes)\n	}\n	mainUI.Stop()\n\n	ix.PrintStats()\n"),
]},
"Ctrl-C in a pass of rewritenodes that is not the last.",
"A line is printed on the terminal while the display is still on it.",
py='''
n = 4000
pbf(P("in.pbf"), *([block(N(*[(i * 4 + j, 1, 1, {}) for j in range(4)])) for i in range(1, n)] + [block(W((i, {}, [i, i + 1]))) for i in range(1, n)]))
pbf(P("big.pbf"), *[block(N(*[(i * 8000 + j, 1, 1, {}) for j in range(8000)])) for i in range(1, 60)])
ok("nodeindex", "-i", P("big.pbf"), "-o", P("n"))
seen = 0
for i in range(6):
    code, out, same = tty("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("out"), "-m", "1", "-w", "1", keys=[(0.004 * i, b"\\x03")])
    check("exit", code, 0)
    on, off = out.find(b"\\x1b[?1049h"), out.rfind(b"\\x1b[?1049l")
    check("display", 0 <= on < off, True)
    if b"ancelled" in out[on:off]:
        fail("printed while the display was on: %r" % out[on:off][-200:])
''')

mk("c03-rel-pass-left", "C03", {"cmd/relindex/relindex.go":[
("	for i := 0; i < opts.Passes; i++ {\n","	for i := 0; i < opts.Passes && !icontext.IsCancelled(ctx); i++ {\n"),
('	"github.com/squizzling/osmindex/internal/iio"\n','	"github.com/squizzling/osmindex/internal/icontext"\n	"github.com/squizzling/osmindex/internal/iio"\n'),
]},
"relindex is cancelled while it reads the PBF.",
"The file of the first pass is left behind.",
py='''
n = 4000
pbf(P("in.pbf"), *[block(R((i, {}, [(1, 1, "")]))) for i in range(1, n)])
pbf(P("w.pbf"), block(W((1, {}, [1, 2]))))
ok("wayindex", "-i", P("w.pbf"), "-o", P("w"))
for i in range(6):
    code, out, same = tty("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("out"), "-w", "1", keys=[(0.004 * i, b"\\x03")])
    check("exit", code, 0)
    check("files", sorted(x for x in os.listdir(tmp.name) if ".pass_" in x), [])
''')

mk("c03-writer-stops", "C03", {"cmd/wayindex/wayindexer/wayindexer_writer.go":[
('			if data.BlobType != "IndexData" {\n				continue\n			}\n','			if icontext.IsCancelled(ctx) {\n				break // what follows would not be used\n			}\n			if data.BlobType != "IndexData" {\n				continue\n			}\n'),
]},
"wayindex is cancelled while at least one more blob is on its way to the writer.",
"The writer no longer takes blobs, so the reordering step and the run wait for ever.",
pkg="cmd/wayindex/wayindexer", go='''
package wayindexer

import (
	"context"
	"path/filepath"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"
)

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan pbf.Block)
	go func() {
		ch <- pbf.Block{BlobType: "Filler"}
		cancel()
		for i := uint64(1); i < 5; i++ {
			ch <- pbf.Block{Index: i, BlobType: "Filler"}
		}
		close(ch)
	}()
	done := make(chan struct{})
	go func() {
		(&WayIndexer{}).Output(filepath.Join(t.TempDir(), "out"), 3)(ctx, ch)
		for range ch {
			t.Errorf("a blob is not taken by the writer")
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
}
''')

mk("c16-bufio", "C16", {"cmd/rewritenodes/rewriter/noderewriter_writer.go":[
("		outputFile := iio.OsCreate(outputFilename)\n","		outputFile := iio.OsCreate(outputFilename)\n		buffered := bufio.NewWriterSize(outputFile, 65536)\n"),
("			iio.FWrite(outputFile, blobHeaderBuf)\n			iio.FWrite(outputFile, blobBuf)\n","			if _, err := buffered.Write(blobHeaderBuf); err != nil {\n				panic(err)\n			}\n			if _, err := buffered.Write(blobBuf); err != nil {\n				panic(err)\n			}\n"),
("		iio.FClose(outputFile)\n","		_ = buffered.Flush()\n		iio.FClose(outputFile)\n"),
("import (\n",'import (\n	"bufio"\n'),
]},
"The write of the last 64 KiB fails (disk full at the very end).",
"The error of the last, buffered write is dropped, so a cut-off output counts as success.",
py='''
import resource, signal
pbf(P("in.pbf"), block(N(*[(i, i, i, {"a": "b%d" % i}) for i in range(1, 50)])), block(W(*[(i, {}, [i, i + 1]) for i in range(1, 40)])))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("ref"))
size = os.path.getsize(P("ref"))
for cut in (1, size // 2, size - 1):
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size - cut, size - cut))
    p = cmd("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("out"), pre=limit)
    check("exit when %d bytes do not fit" % cut, p.returncode != 0, True)
''')

mk("c18-flush-early", "C18", {"cmd/blockcount/blockcount.go":[
("			localBlockCount++\n","			localBlockCount++\n			if localBlockCount == 32 { // for whoever looks at the count before the end\n				*blockCount += localBlockCount\n				localBlockCount = 0\n			}\n"),
]},
"Two workers that have 32 blobs each, and add them up at the same time.",
"Blocks are lost from the count when two workers add theirs at once.",
pkg="cmd/blockcount", flags="-race", go='''
package main

import (
	"context"
	"testing"

	"github.com/squizzling/osmindex/internal/pbf"
)

func TestZZDemo(t *testing.T) {
	var n uint64
	f := countBlocks(&n)
	const workers, each = 8, 3200
	done := make(chan struct{})
	for i := 0; i < workers; i++ {
		go func() {
			ch := make(chan pbf.Block)
			go func() {
				for j := 0; j < each; j++ {
					ch <- pbf.Block{}
				}
				close(ch)
			}()
			f(context.Background(), ch, nil)
			done <- struct{}{}
		}()
	}
	for i := 0; i < workers; i++ {
		<-done
	}
	if n != workers*each {
		t.Fatalf("%d", n)
	}
}
''')

mk("c21-new-size", "C21", {"internal/pool/bytebuffer.go":[
("		buf = make([]byte, sz)\n","		buf = make([]byte, atomic.LoadUint64(&bsp.defSize)) // at least sz, see above\n"),
]},
"Two goroutines ask for different large sizes at once, so that the smaller one is stored last.",
"The new buffer can be smaller than what was asked for, and Get crashes.",
pkg="internal/pool", go='''
package pool

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var mu sync.Mutex
	bad := ""
	for i := 0; i < 200000 && bad == ""; i++ {
		p := NewByteSlicePool(1)
		p.Put(BorrowedBuffer{Buffer: make([]byte, 1), isBorrowed: true})
		var wg sync.WaitGroup
		for _, sz := range []uint64{2, 9, 3, 8} {
			sz := sz
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						bad = "Get crashes"
						mu.Unlock()
					}
				}()
				for j := 0; j < 3; j++ {
					if len(p.Get(sz).Buffer) != int(sz) {
						panic("size")
					}
				}
			}()
		}
		wg.Wait()
	}
	if bad != "" {
		t.Fatal(bad)
	}
}
''')

mk("c22-alias", "C22", {"internal/tracker/worker_tracker.go":[
("""	states := make([]interface{}, 0, len(wt.workers))
	for _, worker := range wt.workers {
		states = append(states, worker)
	}
""","""	states := wt.workers[:len(wt.workers):len(wt.workers)] // appending to it will make a copy
"""),
]},
"A worker ends (its place is closed up and the last one set to nil) while the display goes through the list it got.",
"The list handed out shares its memory with the tracker's own, so the display sees a worker twice, or nil.",
pkg="internal/tracker", go='''
package tracker

import (
	"testing"
)

func TestZZDemo(t *testing.T) {
	var wt WorkerTracker
	a, b, c := new(int), new(int), new(int)
	for _, x := range []*int{a, b, c} {
		wt.TrackWorker(x)
	}
	got := wt.WorkerStates()
	wt.UntrackWorker(a)
	wt.UntrackWorker(b)
	for i, x := range []*int{a, b, c} {
		if got[i] != interface{}(x) {
			t.Fatalf("the list changes: %v at %d", got[i], i)
		}
	}
}
''')

mk("c12-date-gran", "C12", {"internal/t/primitive_block.go":[
("""		buf = pb.EncodeIdVarInt(buf, primitiveBlockGranularity, uint64(pblk.Granularity))
	}
	if pblk.DateGranularity != 1000 {
		buf = pb.EncodeIdVarInt(buf, primitiveBlockDateGranularity, uint64(pblk.DateGranularity))
	}
""","""		buf = pb.EncodeIdVarInt(buf, primitiveBlockGranularity, uint64(pblk.Granularity))
		if pblk.DateGranularity != 1000 {
			buf = pb.EncodeIdVarInt(buf, primitiveBlockDateGranularity, uint64(pblk.DateGranularity))
		}
	}
"""),
]},
"A block with its own date granularity and the default granularity.",
"The date granularity is lost when the block is written.",
pkg="internal/t", go='''
package t

import (
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, g := range []int32{100, 1, 1000} {
		for _, d := range []int32{1000, 1, 2000} {
			in := &PrimitiveBlock{Granularity: g, DateGranularity: d}
			var out PrimitiveBlock
			(&PBReader{}).ReadPrimitiveBlock(in.Write(nil), &out)
			if out.Granularity != g || out.DateGranularity != d {
				t.Fatalf("%d %d becomes %d %d", g, d, out.Granularity, out.DateGranularity)
			}
		}
	}
}
''')

mk("c23-glob", "C23", {"cmd/relindex/relindex.go":[
("	ix.Close()\n","	for _, fn := range leftovers(opts.OutputFile) { // of a run that was killed\n		iio.OsRemoveTry(fn)\n	}\n	ix.Close()\n"),
("func main() {\n","func leftovers(fn string) []string {\n	l, _ := filepath.Glob(fn + \".pass_*\")\n	return l\n}\n\nfunc main() {\n"),
('	"os"\n','	"os"\n	"path/filepath"\n'),
]},
"A file of someone else whose name begins like that of a pass file (out.pass_filter.osm).",
"Files that are not the program's own are deleted.",
py='''
pbf(P("in.pbf"), block(W((1, {}, [1, 2]))), block(R((1, {}, [(1, 1, "")]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w"))
mine = ["out.pass_", "out.pass_filter.osm", "out.pass_9", "out.pass_000_001.bak"]
for n in mine:
    open(P(n), "w").write("precious")
ok("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("out"))
check("files", [n for n in mine if os.path.exists(P(n))], mine)
''')

mk("c01-add-inside", "C01", {"internal/pbf/process.go":[
("	wgWorker.Add(workers)\n	for i := 0; i < workers; i++ {\n		go func() {\n			workStep(ctx, chInputBlobs, chReorderBlobs)\n","	for i := 0; i < workers; i++ {\n		go func() {\n			wgWorker.Add(1)\n			workStep(ctx, chInputBlobs, chReorderBlobs)\n"),
]},
"A worker that is started, takes the last blob and has not got to Add by the time the others have ended; or a run that is over before any worker has started.",
"The pipeline does not wait for workers that start late and closes the channel they are to send to.",
pkg="internal/pbf", flags="-race", go='''
package pbf

import (
	"context"
	"encoding/binary"
	"os"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"testing"

	"github.com/squizzling/osmindex/internal/pb"
)

// A run that is over before its workers have started.
func TestZZDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	var f []byte
	h := pb.EncodeIdBuffer(nil, 1, []byte("OSMData"))
	h = pb.EncodeIdVarInt(h, 3, 0)
	f = binary.BigEndian.AppendUint32(f, uint32(len(h)))
	f = append(f, h...)
	fn := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(fn, f, 0o644); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2000; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		var in, out int64
		ProcessFileAsync(ctx, fn, func(ctx context.Context, ch <-chan Block, o chan<- Block) {
			atomic.AddInt64(&in, 1)
			for b := range ch {
				o <- b
			}
			atomic.AddInt64(&out, 1)
		}, func(ctx context.Context, ch <-chan Block) {
			for range ch {
			}
		}, 8).Wait()
		if atomic.LoadInt64(&out) != 8 {
			t.Fatalf("the run is over and %d of 8 workers have ended", atomic.LoadInt64(&out))
		}
	}
}
''')

mk("c02-loc-reuse", "C02", {"cmd/nodeindex/indexer/nodeindexer_worker.go":[
("		var outputLoc []int64\n",""),
("	sw := &state.Worker{}\n","	var outputLoc []int64 // grows to the largest block and stays\n	sw := &state.Worker{}\n"),
("		firstId := notAssigned\n","		outputLoc = outputLoc[:0]\n		firstId := notAssigned\n"),
]},
"A worker begins its next block while the locations of the one before are not written yet.",
"The locations of a block are overwritten by those of a later block of the same worker before the writer has them.",
pkg="cmd/nodeindex/indexer", flags="-race", go='''
package indexer

import (
	"context"
	"testing"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/pbf"
)

func packed(vs ...int64) []byte {
	last := int64(0)
	var b []byte
	for _, v := range vs {
		b = pb.EncodeVarInt(b, pb.EncodeZigZag(v-last))
		last = v
	}
	return b
}

func TestZZDemo(t *testing.T) {
	in, out := make(chan pbf.Block), make(chan pbf.Block)
	go (&NodeIndexer{}).Worker(context.Background(), in, out)
	go func() {
		for i := int64(0); i < 3; i++ {
			d := pb.EncodeIdBuffer(nil, 1, packed(10*i+1, 10*i+2))
			d = pb.EncodeIdBuffer(d, 8, packed(100*i, 100*i+1))
			d = pb.EncodeIdBuffer(d, 9, packed(100*i, 100*i+1))
			g := pb.EncodeIdBuffer(nil, 2, d)
			b := pb.EncodeIdBuffer(nil, 2, g)
			in <- pbf.Block{Index: uint64(i), BlobType: "OSMData", Data: mmap.MMap(pb.EncodeIdBuffer(nil, 1, b))}
		}
		close(in)
	}()
	var got []elementBatch
	for i := 0; i < 3; i++ {
		got = append(got, (<-out).Data.(elementBatch))
	}
	for i := 1; i < 3; i++ {
		if got[i].locations[0] == got[i-1].locations[0] {
			t.Fatalf("block %d has the locations of another", i-1)
		}
	}
}
''')

mk("c09-key-cache", "C09", {"cmd/tagfilter/tagfilterer/tagfilterer_worker.go":[
("		var pendingNodes t.Nodes\n","		var pendingNodes t.Nodes\n		keep := make(map[[12]byte]bool) // far fewer keys than tags\n"),
("					if !keepTag(k) {\n","					var short [12]byte\n					copy(short[:], k)\n					kept, known := keep[short]\n					if !known {\n						kept = keepTag(k)\n						keep[short] = kept\n					}\n					if !kept {\n"),
]},
"Two keys with the same first twelve characters, one of them on the list, seen by the same worker.",
"The decision for the first key is also used for the second.",
py='''
pairs = [("building:usage:pl", "building:usage:px"), ("3dshapes:ggmodelk", "3dshapes:ggmodelx"), ("waterway:type", "waterway:typo"), ("project:eurosha_2012", "project:eurosha_2013")]
for a, b in pairs:
    for x, y in ((a, b), (b, a)):
        pbf(P("in.pbf"), block(N((1, 1, 1, {x: "x"}))), block(N((2, 1, 1, {y: "x"}))))
        ok("tagfilter", "-i", P("in.pbf"), "-o", P("out"), "-w", "1")
        check("nodes kept of %s and %s" % (x, y), len(content(P("out"))), 1)
''')
