from mk import mk

mk("c13-keyval-order", "C13", {"internal/t/string_table_builder.go":[
("""	ids := make([]int32, 0, len(m)*2)

	sortedKeys := make([]string, 0, len(m))
	for k, _ := range m {
		sortedKeys = append(sortedKeys, k)
	}
	sort.Strings(sortedKeys)

	for _, k := range sortedKeys {
		ids = append(ids, int32(stb.GetIndex(k)))
		ids = append(ids, int32(stb.GetIndex(m[k])))
	}
""","""	ids := make([]int32, 0, len(m)*2)

	sortedKeys := make([]string, 0, len(m))
	for k, _ := range m {
		sortedKeys = append(sortedKeys, k)
	}
	sort.Slice(sortedKeys, func(i, j int) bool {
		return len(sortedKeys[i]) < len(sortedKeys[j])
	})

	for _, k := range sortedKeys {
		ids = append(ids, int32(stb.GetIndex(k)))
		ids = append(ids, int32(stb.GetIndex(m[k])))
	}
"""),
]},
"A node with several keys of the same length, and map iteration in another order.",
"Keys of the same length come in map iteration order, so the same input gives different output bytes.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1, {"name": "a", "kind": "b", "when": "c", "what": "d", "size": "e"}))))
seen = set()
for i in range(40):
    ok("tagfilter", "-i", P("in.pbf"), "-o", P("out.pbf"))
    seen.add(open(P("out.pbf"), "rb").read())
check("different outputs", len(seen), 1)
''')

mk("c13-equal-value", "C13", {"internal/t/string_table_builder.go":[
("		stb.AddString(k)\n		stb.AddString(v)\n","		stb.AddString(k)\n		if v != k {\n			stb.AddString(v)\n		}\n"),
]},
"A tag whose value is the same as its key, with another string just as often or once less.",
"The string is counted once instead of twice, so the table is not ordered by frequency.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1, {"a": "x", "b": "z"}), (2, 2, 2, {"z": "z"}), (3, 2, 2, {"b": "a"}), (4, 1, 1, {"a": "y"}))))
ok("tagfilter", "-i", P("in.pbf"), "-o", P("out.pbf"))
check("strings", parse(blobs(P("out.pbf"))[1][1])["strings"], ["", "a", "z", "b", "x", "y"])
''')

mk("c14-north-pole", "C14", {"internal/morton/morton.go":[
("	lat <<= 1\n	lat >>= 1\n","	// the highest bit marks a location, below it is a 31-bit number\n	lat &= 0x7fffffff\n	if lat >= 900_000_000 {\n		lat -= 1 << 30\n		lat -= 1 << 30\n	}\n"),
]},
"A node exactly at the north pole.",
"Latitude 90 unpacks to a large negative number.",
py='''
pbf(P("in.pbf"), block(N((1, 900000000, 5), (3, -900000000, 5), (5, 899999999, -1800000000))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
got = [l.split("(")[1].split(")")[0] for l in ok("dumpnodeindex", "-i", P("n.idx"), "-p").splitlines() if "(" in l]
check("dump", got, ["%f, %f" % (x / 1e7, y / 1e7) for y, x in ((900000000, 5), (-900000000, 5), (899999999, -1800000000))])
''')

mk("c15-offset-limit", "C15", {"internal/nodeindex/count_offset.go":[
("	if offset >= OffsetMax {","	if offset > OffsetMax {"),
]},
"An index of exactly 2^40 locations.",
"The offset 2^40 is accepted and stored as 0.",
pkg="internal/nodeindex", go='''
package nodeindex

import "testing"

func TestZZDemo(t *testing.T) {
	for _, off := range []uint64{1<<40 - 1, 1 << 40, 1<<40 + 1, 1 << 63} {
		func() {
			refused := false
			var co CountOffset
			func() {
				defer func() { refused = recover() != nil }()
				co = NewCountOffset(3, off)
			}()
			if !refused && (co.Offset() != off || co.Count() != 3) {
				t.Errorf("offset %d stored as %d", off, co.Offset())
			}
		}()
	}
}
''')

mk("c15-way-offset", "C15", {"internal/wayindex/indexdata.go":[
("	return int64(id) & 0x1_ffff_ffff\n","	return int64(uint32(id))\n"),
]},
"A way index with more than 2^32 units of location data.",
"The highest of the 33 bits of an offset is lost.",
pkg="internal/wayindex", go='''
package wayindex

import "testing"

func TestZZDemo(t *testing.T) {
	for _, off := range []int64{0, 1, 1<<32 - 1, 1 << 32, 1<<33 - 1} {
		for _, id := range []int64{1, 2, 1<<31 - 1} {
			d := MakeIndexData(id, off)
			if d.WayID() != id || d.Offset() != off {
				t.Errorf("way %d at %d stored as way %d at %d", id, off, d.WayID(), d.Offset())
			}
		}
	}
}
''')

mk("c16-short-last", "C16", {"internal/iio/wrappers.go":[
("		n, err := f.Write(buf)\n		if err != nil {\n			panic(err)\n		}\n		if n == 0 {\n			panic(\"zero write\")\n		}\n","		n, err := f.Write(buf)\n		if n == 0 {\n			panic(err) // a short write is continued, and fails if there still is an error\n		}\n		if remaining < 4096 {\n			break\n		}\n"),
]},
"A write that is cut short (disk full, size limit) among the last 4096 bytes written in one go, with nothing written after it.",
"A short write of a small buffer is taken for a complete one.",
py='''
import resource, signal
pbf(P("in.pbf"), block(N(*[(i, i, i, {"k%d" % i: "v%d" % i}) for i in range(40)])))
ok("decompress", "-i", P("in.pbf"), "-o", P("full"))
want = open(P("full"), "rb").read()
for cut in range(1, 300, 7):
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (len(want) - cut, len(want) - cut))
    p = cmd("decompress", "-i", P("in.pbf"), "-o", P("out"), pre=limit)
    if p.returncode == 0 and open(P("out"), "rb").read() != want:
        fail("success with an output that is %d bytes short" % cut)
''')

mk("c16-copy", "C16", {"internal/iio/wrappers.go":[
("	n := FRead(fSrc, buf)\n	FWrite(fDst, buf[:n])\n	return n\n","	n := FRead(fSrc, buf)\n	n, _ = fDst.Write(buf[:n])\n	return n\n"),
]},
"A write error while the locations are copied to the end of an index.",
"An error in copying ends the copying as if it was complete; the index has too few locations.",
py='''
import resource, signal
pbf(P("in.pbf"), block(N(*[(i, i, i) for i in range(1, 400)]), W((1, {}, list(range(1, 500))))))
for c in ("nodeindex", "wayindex"):
    ok(c, "-i", P("in.pbf"), "-o", P("full"))
    want = open(P("full"), "rb").read()
    for size in range(len(want) - 10, 40, -97):
        def limit():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        p = cmd(c, "-i", P("in.pbf"), "-o", P("out"), pre=limit)
        if p.returncode == 0 and open(P("out"), "rb").read() != want:
            fail("%s: success with an output of at most %d of %d bytes" % (c, size, len(want)))
''')

mk("c17-tail", "C17", {"internal/pbf/process.go":[
("	for pfs.at < pfs.max {\n","	for pfs.at+4 < pfs.max {\n"),
]},
"A file that is cut off within the four bytes of a blob's header size.",
"What is left of a header size at the end of a file is ignored: a cut-off file is taken for a complete one.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1))), block(N((2, 1, 1))))
d = open(P("in.pbf"), "rb").read()
one = len(open(pbf(P("one"), block(N((1, 1, 1)))), "rb").read())
for extra in (1, 2, 3, 4):
    open(P("cut"), "wb").write(d[:one + extra])
    for c in ("decompress", "nodeindex"):
        p = cmd(c, "-i", P("cut"), "-o", P("out"))
        if p.returncode == 0:
            fail("%s accepts a file cut after %d of %d bytes" % (c, one + extra, len(d)))
''')

mk("c17-clamp", "C17", {"internal/pbf/process.go":[
("		obh := Block{\n			Index:    blobIndex,\n			Data:     inputBuffer[pfs.at : pfs.at+uint64(bh.DataSize)],","		end := pfs.at + uint64(bh.DataSize)\n		if end > pfs.max {\n			end = pfs.max\n		}\n\n		obh := Block{\n			Index:    blobIndex,\n			Data:     inputBuffer[pfs.at:end],"),
]},
"A file that is cut off within a header blob, or a blob that a command does not decode.",
"The rest of a file is taken for a complete blob, whatever size was announced.",
py='''
d = open(pbf(P("in.pbf")), "rb").read()  # a header alone
for n in range(len(d) - 20, len(d)):
    open(P("cut"), "wb").write(d[:n])
    for c in ("tagfilter", "decompress"):
        p = cmd(c, "-i", P("cut"), "-o", P("out"))
        if p.returncode == 0:
            fail("%s accepts a file cut after %d of %d bytes" % (c, n, len(d)))
''')

mk("c18-max-race", "C18", {"cmd/entitycount/entitycount.go":[
("	for old := atomic.LoadUint64(max); new > old && !atomic.CompareAndSwapUint64(max, old, new); old = atomic.LoadUint64(max) {\n		/* do nothing */\n	}\n",
 "	if old := atomic.LoadUint64(max); new > old {\n		atomic.CompareAndSwapUint64(max, old, new)\n	}\n"),
]},
"Two workers that set the maximum at the same time, the one with the lower value first.",
"A lost compare-and-swap is not repeated, so the maximum can be that of another worker.",
pkg="cmd/entitycount", go='''
package main

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if runtime.GOMAXPROCS(0) < 4 {
		runtime.GOMAXPROCS(4)
	}
	for i := 0; i < 300000; i++ {
		var m, ready uint64
		var wg sync.WaitGroup
		for v := uint64(1); v <= 3; v++ {
			wg.Add(1)
			v := v
			go func() {
				defer wg.Done()
				atomic.AddUint64(&ready, 1)
				for atomic.LoadUint64(&ready) < 3 {
				}
				atomicSetMaximum(v, &m)
			}()
		}
		wg.Wait()
		if m != 3 {
			t.Fatalf("round %d: maximum of 1, 2 and 3 is %d", i, m)
		}
	}
}
''')

mk("c18-hit-counter", "C18", {"internal/nodeindex/nodesubindex.go":[
("	atomic.AddUint64(&si.parent.HitDefault, 1)\n","	si.parent.HitDefault++\n"),
]},
"Two workers that look up at the same time.",
"The counter of hits is increased without synchronisation, so hits are lost.",
pkg="internal/nodeindex", flags="-race", go='''
package nodeindex

import (
	"encoding/binary"
	"os"
	"path/filepath"
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	fn := filepath.Join(t.TempDir(), "ix")
	var ix []byte
	for _, v := range []uint64{1, 2, 10, 1, 20, 1<<24 | 1, 1 << 63, 1<<63 | 1} {
		ix = binary.LittleEndian.AppendUint64(ix, v)
	}
	if err := os.WriteFile(fn, ix, 0o600); err != nil {
		t.Fatal(err)
	}
	idx := NewNodeIndex(fn, nil)
	defer idx.Close()
	si := idx.SubIndex(0, 1)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				si.FindNode(20, 0)
			}
		}()
	}
	wg.Wait()
	if idx.HitDefault != 160000 {
		t.Fatalf("%d hits counted, 160000 made", idx.HitDefault)
	}
}
''')

mk("c19-sorted-ids", "C19", {"cmd/entityfind/entityfind.go":[
("	for _, id2 := range ids {\n		if id2 == id {\n			return true\n		}\n	}\n	return false\n","	i := sort.Search(len(ids), func(i int) bool { return ids[i] >= id })\n	return i < len(ids) && ids[i] == id\n"),
("	\"os\"\n","	\"os\"\n	\"sort\"\n"),
]},
"Several ids asked for, not in ascending order.",
"The list of ids is searched as if it was sorted.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1), (2, 1, 1), (5, 1, 1), (9, 1, 1))))
for q in ((1, 5, 9), (9, 1), (5, 9, 1, 2), (2, 7, 1)):
    out = ok("entityfind", "-i", P("in.pbf"), *[a for i in q for a in ("-e", i)])
    check(str(q), out.count("HLNode{"), len(set(q) & {1, 2, 5, 9}))
''')

mk("c19-tag-map", "C19", {"internal/t/primitive_block_nodes.go":[
("				tags := make(map[string]string)\n				ks, vs := pg.Dense.GetKeyVals(i)\n","				ks, vs := pg.Dense.GetKeyVals(i)\n				if len(ks) > 0 || tags == nil {\n					tags = make(map[string]string, len(ks))\n				}\n"),
("		if pg.Dense != nil {\n			for i := 0","		if pg.Dense != nil {\n			var tags map[string]string // nodes without tags share one\n			for i := 0"),
]},
"A node without tags after one with tags in the same group.",
"A node without tags gets the tags of the tagged node before it.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1), (2, 1, 1, {"a": "b"}), (5, 1, 1), (9, 1, 1, {"c": "d"}))))
out = ok("entityfind", "-i", P("in.pbf"), "-e", 1, "-e", 5, "-e", 9).splitlines()
check("tags", [('"a"' in l, '"c"' in l) for l in out], [(False, False), (False, False), (False, True)])
''')

mk("c20-float32", "C20", {"cmd/dumpnodeindex/dumpnodeindex.go":[
("""						fmt.Printf(" Search: %x (%f, %f)\\n",
							search,
							float64(lng)/10_000_000, float64(lat)/10_000_000,
""","""						fmt.Printf(" Search: %x (%f, %f)\\n",
							search,
							float32(lng)/10_000_000, float32(lat)/10_000_000,
"""),
]},
"A coordinate with more digits than a 32-bit float holds.",
"Locations found by searching are printed with 32-bit precision.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1), (5, 123456780, 1234567890), (9, -899999990, 1799999990))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
got = [l.split("(")[1].split(")")[0] for l in ok("dumpnodeindex", "-i", P("n.idx"), "-s").splitlines()]
check("dump", got, ["%f, %f" % (x / 1e7, y / 1e7) for y, x in ((1, 1), (123456780, 1234567890), (-899999990, 1799999990))])
''')

mk("c20-end-element", "C20", {"cmd/dumpnodeindex/dumpnodeindex.go":[
("		endElement = *opts.EndElement\n","		endElement = startElement + *opts.EndElement\n		if endElement > si.ElementCount() {\n			endElement = si.ElementCount()\n		}\n"),
]},
"Both a start element above 0 and an end element.",
"The end element is taken for a number of elements.",
py='''
pbf(P("in.pbf"), block(N(*[(10 * i, i, i) for i in range(1, 8)])))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
for a, b in ((0, 3), (2, 4), (1, 6), (3, 7), (3, 99)):
    got = [int(l.split("=")[1].rstrip("]")) for l in ok("dumpnodeindex", "-i", P("n.idx"), "-p", "--start-element", a, "--end-element", b).splitlines()]
    check("%d to %d" % (a, b), got, [10 * i for i in range(1, 8)][a:b])
''')

mk("c21-foreign", "C21", {"internal/pool/bytebuffer.go":[
("	if bb.isBorrowed {\n","	if bb.isBorrowed || uint64(cap(bb.Buffer)) >= atomic.LoadUint64(&bsp.defSize) {\n"),
]},
"A raw blob of at least 64 KiB followed by a compressed one; the raw one is part of the mapped input file.",
"A large buffer that was not borrowed is put into the pool and handed out, although it is the (read-only) input.",
py='''
big = block(N(*[(i, i * 7919 % 1000003, i * 104729 % 1000003) for i in range(1, 30000)]))
small = block(N((40000, 1, 1)))
with open(P("in.pbf"), "wb") as f:
    f.write(blob("OSMHeader", HEADER))
    for i in range(40):
        f.write(blob("OSMData", big, False) + blob("OSMData", small) + blob("OSMData", small))
check("large", len(big) > 65536, True)
for i in range(5):
    ok("decompress", "-w", 1, "-i", P("in.pbf"), "-o", P("out"))
    check("payloads", [b[1] for b in blobs(P("out"))] == [b[1] for b in blobs(P("in.pbf"))], True)
''')

mk("c22-version-first", "C22", {"internal/tracker/worker_tracker.go":[
("func (wt *WorkerTracker) UntrackWorker(sw interface{}) {\n","func (wt *WorkerTracker) UntrackWorker(sw interface{}) {\n	atomic.AddUint64(&wt.version, 1)\n"),
("			break\n		}\n	}\n	wt.mu.Unlock()\n	atomic.AddUint64(&wt.version, 1)\n","			break\n		}\n	}\n	wt.mu.Unlock()\n"),
]},
"A refresh of the display between the version change and the removal of the worker.",
"The version is raised before the worker is removed; a refresh in between shows the old list until something else changes.",
pkg="internal/tracker", go='''
package tracker

import (
	"sync/atomic"
	"testing"
	"time"

	"github.com/gdamore/tcell/views"
)

type provider struct{ WorkerTracker }

func (p *provider) WriterState() interface{} { return nil }

// Whoever holds the list lets the refresh of the display go first, the worker is removed after it.
func TestZZDemo(t *testing.T) {
	for _, track := range []bool{true, false} {
		p := &provider{}
		a, b := new(int), new(int)
		p.TrackWorker(a)
		p.TrackWorker(b)
		made := int64(0)
		w := NewWidgetWorkers(p, func(interface{}) views.Widget {
			atomic.AddInt64(&made, 1)
			return views.NewText()
		})
		w.RefreshStates()
		p.mu.Lock()
		done := make(chan struct{})
		go func() {
			if track {
				p.TrackWorker(new(int))
			} else {
				p.UntrackWorker(a)
			}
			close(done)
		}()
		time.Sleep(200 * time.Millisecond)
		early := make(chan struct{})
		go func() {
			w.RefreshStates()
			close(early)
		}()
		time.Sleep(200 * time.Millisecond)
		p.mu.Unlock()
		<-done
		<-early
		w.RefreshStates()
		if got, want := len(w.WorkerBox.Widgets()), len(p.WorkerStates()); got != want {
			t.Fatalf("%d lines shown for %d workers", got, want)
		}
	}
}
''')

mk("c22-version-after", "C22", {"internal/tracker/widget_workers.go":[
("	if currentVersion := wt.provider.Version(); wt.lastVersion == currentVersion {\n		return\n	} else {\n		wt.lastVersion = currentVersion\n	}\n","	if wt.lastVersion == wt.provider.Version() {\n		return\n	}\n"),
("	wt.states = newWidgets\n","	wt.states = newWidgets\n	wt.lastVersion = wt.provider.Version()\n"),
]},
"A worker that starts or ends while the display is being refreshed.",
"The version is read again after the list; a change in between is never shown.",
pkg="internal/tracker", go='''
package tracker

import (
	"testing"

	"github.com/gdamore/tcell/views"
)

type provider struct{ WorkerTracker }

func (p *provider) WriterState() interface{} { return nil }

// A worker ends just while the line of another one is made.
func TestZZDemo(t *testing.T) {
	p := &provider{}
	a, b := new(int), new(int)
	p.TrackWorker(a)
	p.TrackWorker(b)
	var then func()
	w := NewWidgetWorkers(p, func(interface{}) views.Widget {
		if then != nil {
			f := then
			then = nil
			f()
		}
		return views.NewText()
	})
	then = func() { p.UntrackWorker(a) }
	w.RefreshStates()
	w.RefreshStates()
	if got := len(w.WorkerBox.Widgets()); got != 1 {
		t.Fatalf("%d lines shown for one worker", got)
	}
}
''')

mk("c23-no-truncate", "C23", {"internal/iio/wrappers.go":[
("	if f, err := os.Create(fn); err != nil {","	if f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0666); err != nil {"),
]},
"An output path that holds a longer file already.",
"An existing output is overwritten but not cut off, so its end remains.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1, {"a": "b"})), W((1, {}, [1])), R((1, {}, [(1, 1, "")]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n"))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w"))
for c, extra in (("decompress", []), ("tagfilter", []), ("nodeindex", []), ("wayindex", []), ("rewritenodes", ["-x", P("n")]), ("relindex", ["-x", P("w")])):
    ok(c, "-i", P("in.pbf"), "-o", P("new." + c), *extra)
    open(P("old." + c), "wb").write(b"x" * 100000)
    ok(c, "-i", P("in.pbf"), "-o", P("old." + c), *extra)
    check(c, open(P("old." + c), "rb").read() == open(P("new." + c), "rb").read(), True)
''')

mk("c24-batched", "C24", {"internal/pbf/process.go":[
("		atomic.AddUint64(&pfs.at, blobHeaderSize)\n","		atomic.AddUint64(&pfs.at, blobHeaderSize)\n		blobEnd := atomic.AddUint64(&pfs.at, 0) + uint64(bh.DataSize)\n"),
("		blobIndex++\n		atomic.AddUint64(&pfs.at, uint64(bh.DataSize))\n","		blobIndex++\n		pfs.SetState(ProcessFileStateLoadingBlock)\n		atomic.StoreUint64(&pfs.at, blobEnd)\n"),
("cleanup:\n	pfs.SetState(ProcessFileStateShuttingDown)\n	close(chInputBlobs)\n	wgWorker.Wait()\n","cleanup:\n	close(chInputBlobs)\n	wgWorker.Wait()\n	pfs.SetState(ProcessFileStateShuttingDown)\n	if writeStep == nil {\n		pfs.SetState(ProcessFileStateInitializing)\n	}\n"),
]},
"A run without an output, watched while it shuts down.",
"The state goes back to initializing at the end of a run without a writer.",
pkg="internal/pbf", go='''
package pbf

import (
	"bytes"
	"context"
	"encoding/binary"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var file bytes.Buffer
	for i := 0; i < 5; i++ {
		hdr := append([]byte{0x0a, 7}, "OSMData"...)
		hdr = append(hdr, 0x18, 2)
		_ = binary.Write(&file, binary.BigEndian, uint32(len(hdr)))
		file.Write(hdr)
		file.Write([]byte{1, 2})
	}
	fn := filepath.Join(t.TempDir(), "in")
	if err := os.WriteFile(fn, file.Bytes(), 0o600); err != nil {
		t.Fatal(err)
	}
	work := func(ctx context.Context, in <-chan Block, out chan<- Block) {
		for range in {
		}
	}
	pfs := ProcessFileAsync(context.Background(), fn, work, nil, 2)
	pfs.Wait()
	if pfs.CurrentState() != ProcessFileStateShuttingDown || pfs.At() != pfs.Max() || pfs.Max() != uint64(file.Len()) {
		t.Fatalf("state %d, at %d of %d", pfs.CurrentState(), pfs.At(), pfs.Max())
	}
}
''')

mk("c24-prefetch", "C24", {"internal/pbf/process.go":[
("""		blobHeaderSize := uint64(binary.BigEndian.Uint32(inputBuffer[pfs.at:]))
		atomic.AddUint64(&pfs.at, 4)

		bh := pbr.ReadBlobHeader(inputBuffer[pfs.at : pfs.at+blobHeaderSize])
		atomic.AddUint64(&pfs.at, blobHeaderSize)
""","""		blobHeaderSize := uint64(binary.BigEndian.Uint32(inputBuffer[pfs.at:]))
		atomic.AddUint64(&pfs.at, 4+blobHeaderSize)

		bh := pbr.ReadBlobHeader(inputBuffer[pfs.at-blobHeaderSize : pfs.at])
		atomic.AddUint64(&pfs.at, uint64(bh.DataSize))
"""),
("			Data:     inputBuffer[pfs.at : pfs.at+uint64(bh.DataSize)],\n","			Data:     inputBuffer[pfs.at-uint64(bh.DataSize) : pfs.at],\n"),
("""		case <-ctx.Done():
			goto cleanup
		case chInputBlobs <- obh:
		}

		blobIndex++
		atomic.AddUint64(&pfs.at, uint64(bh.DataSize))
""","""		case <-ctx.Done():
			// this blob is not processed any more
			atomic.AddUint64(&pfs.at, -uint64(bh.DataSize))
			goto cleanup
		case chInputBlobs <- obh:
		}

		blobIndex++
"""),
]},
"A run that is cancelled while a blob waits for a worker, watched before and after.",
"The position counts a blob before it is handed over and is set back when the run is cancelled.",
pkg="internal/pbf", go='''
package pbf

import (
	"bytes"
	"context"
	"encoding/binary"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var file bytes.Buffer
	for i := 0; i < 5; i++ {
		hdr := append([]byte{0x0a, 7}, "OSMData"...)
		hdr = append(hdr, 0x18, 2)
		_ = binary.Write(&file, binary.BigEndian, uint32(len(hdr)))
		file.Write(hdr)
		file.Write([]byte{1, 2})
	}
	fn := filepath.Join(t.TempDir(), "in")
	if err := os.WriteFile(fn, file.Bytes(), 0o600); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	first, release := make(chan struct{}), make(chan struct{})
	work := func(ctx context.Context, in <-chan Block, out chan<- Block) {
		for b := range in {
			if b.Index == 0 {
				close(first)
				<-release
			}
		}
	}
	pfs := ProcessFileAsync(ctx, fn, work, nil, 1)
	<-first
	time.Sleep(300 * time.Millisecond) // the reader waits with the second blob
	before := pfs.At()
	cancel()
	time.Sleep(300 * time.Millisecond)
	close(release)
	pfs.Wait()
	if pfs.At() < before {
		t.Fatalf("position went from %d back to %d", before, pfs.At())
	}
}
''')

mk("c25-round", "C25", {"internal/ui/format.go":[
("	pre := int(float64(w) * pct)\n","	pre := int(float64(w)*pct + 0.5)\n"),
]},
"A percentage of the width with a fraction of a half or more.",
"The highlighted part is rounded to the nearest width instead of down.",
pkg="internal/ui", go='''
package ui

import "testing"

func TestZZDemo(t *testing.T) {
	for _, c := range []struct {
		w    int
		pct  float64
		want string
	}{{10, 0.25, "%Sab%Ncd      "}, {10, 0.5, "%Sabcd %N     "}, {7, 0.5, "%Sabc%Nd   "}, {4, 0.2, "%S%Nabcd"}} {
		if got := MarkupAsProgress("abcd", c.w, c.pct); got != c.want {
			t.Errorf("%d %v: got %q, want %q", c.w, c.pct, got, c.want)
		}
	}
}
''')

mk("c26-lon-offset", "C26", {"cmd/nodeindex/indexer/nodeindexer_worker.go":[
("int32((pb.LonOffset + (int64","int32((pb.LatOffset + (int64"),
]},
"A block whose longitude offset differs from its latitude offset.",
"The latitude offset is used for longitudes too.",
py='''
pbf(P("in.pbf"), block(N((1, 3, 5), (2, 7, 9)), latoff=1000, lonoff=-7000), block(W((1, {}, [1, 2]))), block(R((1, {}, [(1, 1, "")]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("out"))
ok("wayindex", "-i", P("out"), "-o", P("w"))
ok("relindex", "-i", P("out"), "-x", P("w"), "-o", P("r"))
check("geometry", relidx(P("r")), [(1, [(1, [loc(1300, -6500), loc(1700, -6100)])])])
''')

mk("c26-filter-refs", "C26", {"internal/t/primitive_block_ways.go":[
("			for _, id := range w.Refs {\n				ns = append(ns, NodeId(id))\n","			for i, id := range w.Refs {\n				if i > 0 && id+1 == w.Refs[i-1] && id < 0 {\n					continue // the same place\n				}\n				ns = append(ns, NodeId(id))\n"),
]},
"tagfilter on a file that is already rewritten, with two nodes in a row of a way a single unit apart.",
"tagfilter merges neighbouring locations of a rewritten way.",
py='''
pbf(P("in.pbf"), block(N((1, 5, 5), (2, 5, 4), (3, 5, 9))), block(W((1, {"a": "b"}, [1, 2, 3]))), block(R((1, {}, [(1, 1, "")]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("out"))
ok("tagfilter", "-i", P("out"), "-o", P("f"))
ok("wayindex", "-i", P("f"), "-o", P("w"))
ok("relindex", "-i", P("f"), "-x", P("w"), "-o", P("r"))
check("geometry", relidx(P("r")), [(1, [(1, [loc(500, 500), loc(500, 400), loc(500, 900)])])])
''')

mk("c27-version-early", "C27", {"cmd/nodeindex/indexer/nodeindexer_writer.go":[
("[]int64{0, 0})","[]int64{nodeindex.Version, 0})"),
]},
"A build that is killed, fails or is cancelled before it is finished, and its output being used afterwards.",
"The version is written at the start, so an unfinished index is accepted as one without nodes.",
py='''
import resource, signal
pbf(P("in.pbf"), block(N(*[(3 * i, i, i) for i in range(1, 900)]), W((1, {}, [3, 6]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("full"))
for size in (16, 100, 5000, 14400):
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    p = cmd("nodeindex", "-i", P("in.pbf"), "-o", P("n"), pre=limit)
    check("exit of a build that can not write", p.returncode != 0, True)
    for c, a in (("dumpnodeindex", ["-i", P("n"), "-p"]), ("rewritenodes", ["-i", P("in.pbf"), "-x", P("n"), "-o", P("out")])):
        if cmd(c, *a).returncode == 0:
            fail("%s accepts an index that was not finished (%d bytes)" % (c, size))
''')

mk("c28-zlib-window", "C28", {"internal/t/blob.go":[
("	remaining := int(*b.RawSize)\n	start := 0\n	for remaining > 0 {\n		remainingBuffer := outBuf[start:cap(outBuf)]\n","	remaining := len(outBuf)\n	start := 0\n	for remaining > 0 {\n		remainingBuffer := outBuf[start:]\n		if len(remainingBuffer) > 1<<24 {\n			remainingBuffer = remainingBuffer[len(remainingBuffer)-1<<24:] // keep the reads small\n		}\n"),
]},
"A compressed blob of more than 16 MiB.",
"Reads of large blobs are limited to 16 MiB, but from the end of the buffer rather than from where the data go.",
py='''
import random
r = random.Random(1)
payload = block({"rels": []}) + B(1, b"".join(B(1, bytes([97 + r.randrange(26)]) * 1000) for _ in range(18000)))
pbf(P("in.pbf"), payload)
check("large", len(payload) > 1 << 24, True)
ok("decompress", "-i", P("in.pbf"), "-o", P("out"))
check("payload", blobs(P("out"))[1][1] == payload, True)
''')

mk("c28-member-count", "C28", {"cmd/relindex/relindexerinit/relindexer_worker.go":[
("			var outputData []int64\n","			var outputData []int64\n			var ways [1024]int64\n"),
("""					wayCount := int64(0)
					for _, mt := range r.MemberType {
						if mt == t.RelationMemberTypeWay {
							wayCount++
						}
					}
					outputData = append(outputData, wayCount)
					for idx, wayId := range r.MemIDs {
						if r.MemberType[idx] != t.RelationMemberTypeWay {
							continue
						}

						outputData = append(outputData, -wayId)
					}
""","""					wayCount := int64(0)
					for idx, wayId := range r.MemIDs {
						if r.MemberType[idx] == t.RelationMemberTypeWay && wayCount < int64(len(ways)) {
							ways[wayCount] = -wayId
							wayCount++
						}
					}
					outputData = append(outputData, wayCount)
					outputData = append(outputData, ways[:wayCount]...)
"""),
]},
"A relation with more than 1024 ways.",
"The ways of a relation above 1024 are dropped.",
py='''
pbf(P("in.pbf"), block(W(*[(i, {}, [i, i + 1]) for i in range(1, 1500)])), block(R((1, {}, [(1, i, "") for i in range(1, 1500)]), (2, {}, [(1, 3, "")]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w"))
ok("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("r"))
check("relations", relidx(P("r")), [(1, [(i, [i, i + 1]) for i in range(1, 1500)]), (2, [(3, [3, 4])])])
''')
