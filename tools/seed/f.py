import re, sys
from mk import mk

mk("c01-idx16", "C01", {"internal/pbf/process.go":[
("	blobIndex := uint64(0)\n","	blobIndex := uint16(0)\n"),
("			Index:    blobIndex,\n","			Index:    uint64(blobIndex),\n"),
]},
"A file of more than 65536 blobs.",
"The index of a blob starts again at 0 after 65536 blobs, so nothing after that is written.",
py='''
n = 66000
with open(P("in.pbf"), "wb") as f:
    f.write(blob("OSMHeader", HEADER))
    for i in range(n):
        f.write(blob("OSMData", b"\\x0a\\x02\\x0a\\x00", False))
ok("decompress", "-i", P("in.pbf"), "-o", P("out"), "-w", "4", timeout=100)
check("bytes", len(open(P("out"), "rb").read()) , len(open(P("in.pbf"), "rb").read()) - len(blob("OSMHeader", HEADER)) + len(blob("OSMHeader", HEADER, False)))
''')

mk("c30-second-ctrlc", "C30", {"internal/ui/ui.go":[
("			u.cancel()\n			return true\n","			u.cancel()\n			u.cancel = nil // only once\n			return true\n"),
]},
"Ctrl-C pressed a second time while the run is ending.",
"The second Ctrl-C crashes the command.",
py='''
n = 20000
pbf(P("in.pbf"), *[block(R((i, {}, [(1, 1, "")]))) for i in range(1, n)])
pbf(P("w.pbf"), block(W((1, {}, [1, 2]))))
ok("wayindex", "-i", P("w.pbf"), "-o", P("w"))
for i in range(10):
    code, out, same = tty("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("out"), "-w", "1", keys=[(0.004 * i, b"\\x03\\x03\\x03")])
    check("exit", code, 0)
''')

mk("c21-double-put", "C21", {"cmd/nodeindex/indexer/nodeindexer_worker.go":[
("			msg.BlobType = \"Filler\"\n","			msg.BlobType = \"Filler\"\n			pool.ByteSlice.Put(rawData)\n"),
]},
"Blocks without nodes, after which two workers decode a block at the same time.",
"The buffer of a block without nodes is given back twice, so that two workers later get the same one.",
pkg="internal/pool", py='''
import random
random.seed(1)
blocks, want = [], {}
for i in range(6000):
    if i % 3 == 0:
        blocks.append(block(W((i + 1, {}, [1, 2]))))
    else:
        ns = [(i * 50 + j, i, j * 7) for j in range(40)]
        blocks.append(block(N(*ns)))
pbf(P("in.pbf"), *blocks)
ok("nodeindex", "-i", P("in.pbf"), "-o", P("want"), "-w", "1")
want = open(P("want"), "rb").read()
for i in range(40):
    ok("nodeindex", "-i", P("in.pbf"), "-o", P("out"), "-w", "8")
    check("same index", open(P("out"), "rb").read() == want, True)
''')

mk("c17-loc-clamp", "C17", {"internal/nodeindex/nodesubindex.go":[
("	atomic.AddUint64(&si.parent.HitDefault, 1)\n	loc := si.locations[si.element[lowerPoint].OffsetForID(id)]\n","	atomic.AddUint64(&si.parent.HitDefault, 1)\n	loc := si.at(si.element[lowerPoint].OffsetForID(id))\n"),
("			loc := si.locations[si.element[hint].OffsetForID(id)]\n","			loc := si.at(si.element[hint].OffsetForID(id))\n"),
("func (si *NodeSubIndex) findNodeActual(","""// at is the location at an offset, or 0 if there is none
func (si *NodeSubIndex) at(offset uint64) int64 {
	if offset >= uint64(len(si.locations)) {
		return 0
	}
	return si.locations[offset]
}

func (si *NodeSubIndex) findNodeActual("""),
]},
"A node index of which the last locations are cut off.",
"Nodes whose location is cut off are taken for nodes the index does not have, and the run succeeds.",
py='''
pbf(P("n.pbf"), block(N(*[(i, i * 10, i * 10) for i in range(1, 40)])))
ok("nodeindex", "-i", P("n.pbf"), "-o", P("n"))
pbf(P("in.pbf"), block(W((1, {}, [1, 39]))))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("want"), "-w", "1")
d = open(P("n"), "rb").read()
open(P("n"), "wb").write(d[:-8])
p = cmd("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("out"), "-w", "1")
check("refused or complete", p.returncode != 0 or open(P("out"), "rb").read() == open(P("want"), "rb").read(), True)
''')

mk("c28-write-behind", "C28", {"cmd/relindex/relindex.go":[
("	outputData := make([]int64, 0, 1048576)\n","""	outputData := make([]int64, 0, 1048576)
	spareData := make([]int64, 0, 1048576)

	// Write one buffer while the next is filled
	chWrite := make(chan []int64, 1)
	chDone := make(chan struct{})
	go func() {
		for data := range chWrite {
			iio.FWriteSliceI64(fOut, data)
		}
		close(chDone)
	}()
"""),
("			iio.FWriteSliceI64(fOut, outputData)\n			outputData = outputData[:0]\n","			chWrite <- outputData\n			outputData, spareData = spareData[:0], outputData\n"),
("	if len(outputData) > 0 {\n		iio.FWriteSliceI64(fOut, outputData)\n	}\n","	if len(outputData) > 0 {\n		chWrite <- outputData\n	}\n	close(chWrite)\n	<-chDone\n"),
]},
"A relation index of more than 24 MB, and a disk that is slower than the lookups.",
"A buffer is filled again while it is still being written.",
py='''
import threading, time
n = 450
pbf(P("w.pbf"), *[block(W(*[(b * 10 + j + 1, {}, [b * 100000 + j * 1000 + k + 1 for k in range(1000)]) for j in range(10)])) for b in range(n // 10)])
ok("wayindex", "-i", P("w.pbf"), "-o", P("w"))
pbf(P("in.pbf"), *[block(R(*[(i + 1, {}, [(1, m, "") for m in range(1 + i % 200, 251 + i % 200)])])) for i in range(24)])
ok("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("fast"), "-w", "2")
os.mkfifo(P("slow"))
got = []
def read():
    fd = os.open(P("slow"), os.O_RDONLY)
    time.sleep(2)
    while True:
        d = os.read(fd, 1 << 16)
        if not d:
            return
        got.append(d)
t = threading.Thread(target=read)
t.start()
ok("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("slow"), "-w", "2")
t.join()
def right(d):
    w = struct.unpack("<%dq" % (len(d) // 8), d)
    i = 0
    for r in range(24):
        if w[i] != r + 1 or w[i + 1] != 250:
            return False
        i += 2
        for m in range(1 + r % 200, 251 + r % 200):
            l = [(m - 1) // 10 * 100000 + (m - 1) % 10 * 1000 + k + 1 for k in range(1000)]
            if w[i] != m or w[i + 1] != len(l) or list(w[i + 2:i + 2 + len(l)]) != l:
                return False
            i += 2 + len(l)
    return i == len(w)
check("slow file", right(b"".join(got)), True)
check("fast file", right(open(P("fast"), "rb").read()), True)
''')

mk("c13-freq16", "C13", {"internal/t/string_table_builder.go":[
("		freqI := stb.stringFrequency[stb.stringList[i]]\n		freqJ := stb.stringFrequency[stb.stringList[j]]\n","		freqI := uint16(stb.stringFrequency[stb.stringList[i]])\n		freqJ := uint16(stb.stringFrequency[stb.stringList[j]])\n"),
]},
"A string that is added more than 65535 times.",
"A string that comes 65537 times is put behind one that comes twice.",
pkg="internal/t", go='''
package t

import "testing"

func TestZZDemo(t *testing.T) {
	b := NewStringTableBuilder()
	for i := 0; i < 65537; i++ {
		b.AddString("b")
	}
	b.AddString("a")
	b.AddString("a")
	b.Finalize()
	s := b.ToStringTable().S
	if len(s) != 3 || s[0] != "" || s[1] != "b" || s[2] != "a" {
		t.Fatal(s)
	}
}
''')

mk("c30-narrow", "C30", {"internal/ui/widget/widget_process_state.go":[
("	switch s := pfsw.ps.CurrentState(); s {","	if pfsw.View != nil { // a long filename must not push the state off the screen\n		if w, _ := pfsw.View.Size(); len(prefix) > w-30 && w > 0 {\n			prefix = prefix[:w-30] + \": \"\n		}\n	}\n	switch s := pfsw.ps.CurrentState(); s {"),
]},
"A terminal of fewer than 30 columns.",
"The command crashes when the terminal is narrow, or made so while it runs.",
py='''
import fcntl, pty, select, termios, time
pbf(P("in.pbf"), *[block(N(*[(i * 10 + j, 1, 1, {}) for j in range(9)])) for i in range(20000)])
for cols in (200, 20):
    m, s = pty.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 24, cols, 0, 0))
    p = subprocess.Popen([os.path.join(BIN, "nodeindex"), "-i", P("in.pbf"), "-o", P("out"), "-w", "1", "-r", "1ms"], stdin=s, stdout=s, stderr=s, env=dict(os.environ, TERM="xterm"),
                         start_new_session=True, preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
    end = time.time() + 60
    while p.poll() is None and time.time() < end:
        if select.select([m], [], [], 0.005)[0]:
            os.read(m, 65536)
    check("%d columns" % cols, p.poll(), 0)
''')

mk("c31-shared-hint", "C31", {"cmd/rewritenodes/rewriter/noderewriter.go":[
("	writer state.Writer\n","	writer state.Writer\n\n	hint int // where the last node was found; blocks that follow each other are close\n"),
],"cmd/rewritenodes/rewriter/noderewriter_worker.go":[
("			hint := 0\n","			hint := nr.hint\n"),
("			sw.SetCurrentState(state.WorkerWriting)\n			chOut <- pbf.Block{\n","			nr.hint = hint\n			sw.SetCurrentState(state.WorkerWriting)\n			chOut <- pbf.Block{\n"),
]},
"Two workers that rewrite blocks with ways.",
"The workers read and write the hint of the last lookup without synchronisation.",
pkg="cmd/rewritenodes/rewriter", flags="-race", go='''
package rewriter

import (
	"context"
	"io/ioutil"
	"os"
	"sync"
	"testing"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/iunsafe"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/t"
)

func TestZZDemo(tt *testing.T) {
	d, err := ioutil.TempDir("", "")
	if err != nil {
		tt.Fatal(err)
	}
	defer os.RemoveAll(d)
	ix := []uint64{nodeindex.Version, 1, 1, uint64(nodeindex.NewCountOffset(1, 0)), 1 << 63}
	if err := ioutil.WriteFile(d+"/n", iunsafe.Uint64SliceAsByteSlice(ix), 0600); err != nil {
		tt.Fatal(err)
	}
	n := nodeindex.NewNodeIndex(d+"/n", nil)
	defer n.Close()
	body := (&t.PrimitiveBlock{StringTable: &t.StringTable{S: []string{""}}, PrimitiveGroup: []*t.PrimitiveGroup{{Ways: []*t.Way{{ID: 1, Refs: []int64{1}}}}}}).Write(nil)
	data := (&t.Blob{Raw: body}).Write(nil)
	in, out := make(chan pbf.Block), make(chan pbf.Block)
	nr := &NodeRewriter{}
	w := nr.Worker(n.SubIndex(0, 1), true)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			w(context.Background(), in, out)
			wg.Done()
		}()
	}
	go func() {
		for i := 0; i < 400; i++ {
			in <- pbf.Block{Index: uint64(i), Data: mmap.MMap(data), BlobType: "OSMData"}
		}
		close(in)
		wg.Wait()
		close(out)
	}()
	c := 0
	for range out {
		c++
	}
	if c != 400 {
		tt.Fatal(c)
	}
}
''')

mk("c22-same-count", "C22", {"internal/tracker/widget_workers.go":[
("	oldWidgets := wt.states\n","	if len(wt.provider.WorkerStates()) == len(wt.states) {\n		return // nothing was added or removed\n	}\n\n	oldWidgets := wt.states\n"),
]},
"One worker ends and another starts between two refreshes.",
"The display keeps the line of the worker that has ended, and does not show the new one.",
pkg="internal/tracker", go='''
package tracker

import (
	"testing"

	"github.com/gdamore/tcell/views"
)

type sp struct{ WorkerTracker }

func (*sp) WriterState() interface{} { return nil }

func TestZZDemo(t *testing.T) {
	p := &sp{}
	made := map[views.Widget]interface{}{}
	w := NewWidgetWorkers(p, func(s interface{}) views.Widget {
		v := views.NewText()
		made[v] = s
		return v
	})
	a, b, c := new(int), new(int), new(int)
	p.TrackWorker(a)
	p.TrackWorker(b)
	w.RefreshStates()
	p.UntrackWorker(a)
	p.TrackWorker(c)
	w.RefreshStates()
	l := w.WorkerBox.Widgets()
	if len(l) != 2 {
		t.Fatal(len(l))
	}
	for _, v := range l {
		if made[v] == interface{}(a) {
			t.Fatal("the line of a worker that has ended")
		}
	}
}
''')

mk("c29-pass-digits", "C29", {"cmd/relindex/args.go":[
("		errors = append(errors, \"passes must be at least 1\")\n	}\n","		errors = append(errors, \"passes must be at least 1\")\n	}\n\n	if opts.Passes > 999 { // pass files have three digits\n		errors = append(errors, \"passes must be at most 999\")\n	}\n"),
]},
"More than 999 passes.",
"A number of passes above 999 is refused.",
py='''
pbf(P("w.pbf"), block(W((1, {}, [1, 2]), (2, {}, [5, 6]))))
ok("wayindex", "-i", P("w.pbf"), "-o", P("w"))
pbf(P("in.pbf"), block(R((1, {}, [(1, 1, ""), (1, 2, "")]))))
outs = []
for p in (1, 999, 1000, 1200):
    ok("relindex", "-i", P("in.pbf"), "-x", P("w"), "-o", P("out"), "-p", p)
    outs.append(open(P("out"), "rb").read())
for o in outs[1:]:
    check("index", o, outs[0])
''')

mk("c19-repeat", "C19", {"cmd/entityfind/entityfind.go":[
("				if isIn(ids, uint64(n.Id)) {\n					fmt.Printf(\"%#v\\n\", n)\n				}\n","				for _, id := range ids {\n					if id == uint64(n.Id) {\n						fmt.Printf(\"%#v\\n\", n)\n					}\n				}\n"),
]},
"An id that is asked for twice.",
"A node is printed once for each time its id is on the command line.",
py='''
pbf(P("in.pbf"), block(N((1, 2, 3, {"a": "b"}), (2, 3, 4))), block(W((1, {}, [1, 2]))))
a = ok("entityfind", "-i", P("in.pbf"), "-w", "1", "-e", "1")
b = ok("entityfind", "-i", P("in.pbf"), "-w", "1", "-e", "1", "-e", "1")
check("output", b, a)
check("lines", len(a.splitlines()), 2)
''')

mk("c27-stale-tmp", "C27", {"cmd/nodeindex/indexer/nodeindexer_writer.go":[
("		outputFileLoc := iio.OsCreate(outputFileName + \".loc.tmp\")\n","		outputFileLoc := iio.OsReuse(outputFileName + \".loc.tmp\")\n"),
],"internal/iio/wrappers.go":[
("func OsRemove(","// OsReuse opens a file that will be written from the start, and keeps the space it has\nfunc OsReuse(fn string) *os.File {\n	if f, err := os.OpenFile(fn, os.O_RDWR|os.O_CREATE, 0666); err != nil {\n		panic(err)\n	} else {\n		return f\n	}\n}\n\nfunc OsRemove("),
]},
"A build that was killed, and left a temporary file longer than that of the next build.",
"The end of the locations of the killed build becomes part of the next index.",
py='''
pbf(P("in.pbf"), block(N((1, 2, 3), (2, 3, 4))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("a"))
open(P("b.loc.tmp"), "wb").write(struct.pack("<8q", *range(-8, 0)))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("b"))
check("index", open(P("b"), "rb").read(), open(P("a"), "rb").read())
check("left", os.path.exists(P("b.loc.tmp")), False)
''')

mk("c04-antimeridian", "C04", {"cmd/nodeindex/indexer/nodeindexer_worker.go":[
("				outputLoc = append(outputLoc, int64(morton","				if lon == 1800000000 { // the same meridian\n					lon = -lon\n				}\n				outputLoc = append(outputLoc, int64(morton"),
]},
"A node at a longitude of exactly 180 degrees.",
"The node is put at -180 degrees.",
py='''
pbf(P("in.pbf"), block(N((1, 5, 1799999999), (2, 5, 1800000000), (3, 5, -1800000000))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n"))
o = ok("dumpnodeindex", "-i", P("n"), "-p").splitlines()
check("nodes", ["(180.000000, 0" in o[1], "(-180.000000, 0" in o[2]], [True, True])
''')
