from mk import mk

mk("c01-ring", "C01", {"internal/pbf/reorder.go":[
("type reorderBuffer map[uint64]Block\n","""// reorderWindow is how far a worker can run ahead of the slowest one
const reorderWindow = 64

type reorderBuffer map[uint64]Block
"""),
("	obo, ok := rb[k]\n	if ok {\n		delete(rb, k)\n	}\n	return obo, ok","	obo, ok := rb[k%reorderWindow]\n	if ok {\n		delete(rb, k%reorderWindow)\n	}\n	return obo, ok"),
("		rob[b.Index] = b\n","		rob[b.Index%reorderWindow] = b\n"),
]},
"One worker must stay behind on one blob while the others process more than 64 blobs after it.",
"The reorder buffer is a ring of 64 slots: a blob more than 64 ahead overwrites one that is still waiting.",
pkg="internal/pbf", go='''
package pbf

import (
	"bytes"
	"context"
	"encoding/binary"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	"github.com/edsrzf/mmap-go"
)

// One worker holds on to the first blob until the others are done with the rest.
func TestZZDemo(t *testing.T) {
	const n = 200
	var file bytes.Buffer
	for i := 0; i < n; i++ {
		data := []byte{byte(i), 1}
		hdr := append([]byte{0x0a, 7}, "OSMData"...)
		hdr = append(hdr, 0x18, byte(len(data)))
		_ = binary.Write(&file, binary.BigEndian, uint32(len(hdr)))
		file.Write(hdr)
		file.Write(data)
	}
	fn := filepath.Join(t.TempDir(), "in")
	if err := os.WriteFile(fn, file.Bytes(), 0o600); err != nil {
		t.Fatal(err)
	}
	var sent int64
	work := func(ctx context.Context, in <-chan Block, out chan<- Block) {
		for b := range in {
			if b.Index == 0 {
				for end := time.Now().Add(20 * time.Second); atomic.LoadInt64(&sent) < n-1 && time.Now().Before(end); {
					time.Sleep(time.Millisecond)
				}
			}
			v := b.Data.(mmap.MMap)[0]
			out <- Block{Index: b.Index, Data: v}
			atomic.AddInt64(&sent, 1)
		}
	}
	var got []byte
	write := func(ctx context.Context, in <-chan Block) {
		for b := range in {
			got = append(got, b.Data.(byte))
		}
	}
	done := make(chan struct{})
	go func() {
		ProcessFileAsync(context.Background(), fn, work, write, 3).Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("does not end")
	}
	if len(got) != n {
		t.Fatalf("%d of %d blobs written", len(got), n)
	}
	for i, v := range got {
		if int(v) != i {
			t.Fatalf("blob %d written in place %d", v, i)
		}
	}
}
''')

mk("c02-rewrite-put", "C02", {"cmd/rewritenodes/rewriter/noderewriter_worker.go":[
("			pbr.ReadPrimitiveBlock(rawData.Buffer, &pb)\n","			pbr.ReadPrimitiveBlock(rawData.Buffer, &pb)\n			pool.ByteSlice.Put(rawData) // everything is decoded now\n"),
("				sw.SetCurrentState(state.WorkerReading)\n				pool.ByteSlice.Put(rawData)\n","				sw.SetCurrentState(state.WorkerReading)\n"),
("			sw.SetCurrentState(state.WorkerReading)\n			pool.ByteSlice.Put(rawData)\n		}","			sw.SetCurrentState(state.WorkerReading)\n		}"),
]},
"Another worker must take the buffer from the pool and fill it before this one has encoded its block; needs compressed blobs and several workers.",
"The decompressed block is given back to the pool while strings, nodes and relations that are passed through still point into it.",
pkg="cmd/rewritenodes/rewriter", flags="-race", go='''
package rewriter

import (
	"bytes"
	"compress/zlib"
	"context"
	"encoding/binary"
	"os"
	"path/filepath"
	"testing"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/pbf"
)

// A block with a way of many refs, and a string table that fills it with one byte.
func blob(fill byte) mmap.MMap {
	refs := make([]int64, 20000)
	for i := range refs {
		refs[i] = int64(i%7) + 1
	}
	way := pb.EncodeIdVarInt(nil, 1, 1)
	way = pb.EncodeVarInt(way, pb.MakeIdType(8, pb.PbFixedBytes))
	way = pb.EncodeS64PackedDelta(way, refs)
	block := pb.EncodeIdBuffer(nil, 1, pb.EncodeIdBuffer(nil, 1, bytes.Repeat([]byte{fill}, 50000)))
	block = pb.EncodeIdBuffer(block, 2, pb.EncodeIdBuffer(nil, 3, way))
	var z bytes.Buffer
	zw := zlib.NewWriter(&z)
	_, _ = zw.Write(block)
	_ = zw.Close()
	b := pb.EncodeIdVarInt(nil, 2, uint64(len(block)))
	return mmap.MMap(pb.EncodeIdBuffer(b, 3, z.Bytes()))
}

func TestZZDemo(t *testing.T) {
	ixFile := filepath.Join(t.TempDir(), "ix")
	var ix []byte
	for _, v := range []uint64{1, 1, 5, 1, 1 << 63} {
		ix = binary.LittleEndian.AppendUint64(ix, v)
	}
	if err := os.WriteFile(ixFile, ix, 0o600); err != nil {
		t.Fatal(err)
	}
	idx := nodeindex.NewNodeIndex(ixFile, nil)
	defer idx.Close()
	nr := &NodeRewriter{}
	work := nr.Worker(idx.SubIndex(0, 1), true)
	const n = 400
	in, out := make(chan pbf.Block), make(chan pbf.Block)
	for i := 0; i < 8; i++ {
		go work(context.Background(), in, out)
	}
	go func() {
		for i := 0; i < n; i++ {
			in <- pbf.Block{Index: uint64(i), Data: blob(byte(i)), BlobType: "OSMData"}
		}
		close(in)
	}()
	for i := 0; i < n; i++ {
		b := <-out
		if c := bytes.Count(b.Data.([]byte), []byte{byte(b.Index)}); c < 50000 {
			t.Fatalf("block %d has lost its strings (%d)", b.Index, c)
		}
	}
}
''')

mk("c02-rel-reuse", "C02", {"cmd/relindex/relindexerinit/relindexer_worker.go":[
("		sw.SetCurrentState(state.WorkerReading)\n		for data := range chIn {","		outputData := make([]int64, 0, 65536)\n\n		sw.SetCurrentState(state.WorkerReading)\n		for data := range chIn {"),
("			var outputData []int64\n","			outputData = outputData[:0]\n"),
]},
"The worker must process its next block with relations before the writer has written the previous one (a slow writer, or a block waiting for an earlier one).",
"Workers reuse the slice they have sent to the writer, so a block that still waits gets the content of a later one.",
pkg="cmd/relindex/relindexerinit", go='''
package relindexerinit

import (
	"context"
	"fmt"
	"testing"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/pbf"
)

func blob(id uint64) mmap.MMap {
	rel := pb.EncodeIdVarInt(nil, 1, id)
	rel = pb.EncodeVarInt(rel, pb.MakeIdType(8, pb.PbFixedBytes))
	rel = pb.EncodeI32Packed(rel, []int32{0})
	rel = pb.EncodeVarInt(rel, pb.MakeIdType(9, pb.PbFixedBytes))
	rel = pb.EncodeS64PackedDelta(rel, []int64{int64(id) * 100})
	rel = pb.EncodeIdBuffer(rel, 10, []byte{1})
	block := pb.EncodeIdBuffer(nil, 1, pb.EncodeIdBuffer(nil, 1, nil))
	block = pb.EncodeIdBuffer(block, 2, pb.EncodeIdBuffer(nil, 4, rel))
	return mmap.MMap(pb.EncodeIdBuffer(nil, 1, block))
}

// The writer gets the first block only after the worker is done with the second.
func TestZZDemo(t *testing.T) {
	in, out := make(chan pbf.Block), make(chan pbf.Block, 2)
	ri := &RelIndexerInitializer{}
	go ri.Worker()(context.Background(), in, out)
	in <- pbf.Block{Index: 0, Data: blob(1), BlobType: "OSMData"}
	in <- pbf.Block{Index: 1, Data: blob(2), BlobType: "OSMData"}
	in <- pbf.Block{Index: 2, Data: mmap.MMap{}, BlobType: "OSMHeader"}
	got := fmt.Sprint((<-out).Data, (<-out).Data)
	if want := "[1 1 -100] [2 1 -200]"; got != want {
		t.Fatalf("got %s, want %s", got, want)
	}
}
''')

mk("c03-lost-on-cancel", "C03", {"cmd/decompress/decompressor/decompressor_worker.go":[
("		chOut <- pbf.Block{\n			Index:    obh.Index,\n			Data:     outputBuffer,\n			BlobType: obh.BlobType,\n		}\n",
"""		select {
		case chOut <- pbf.Block{
			Index:    obh.Index,
			Data:     outputBuffer,
			BlobType: obh.BlobType,
		}:
		case <-ctx.Done():
			return
		}
"""),
]},
"The run must be cancelled while a worker still holds a blob and another worker has already passed on a later one.",
"A cancelled worker drops the blob it holds; if a later blob is already in the reorder buffer the run crashes.",
pkg="cmd/decompress/decompressor", go='''
package decompressor

import (
	"bytes"
	"context"
	"encoding/binary"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/pbf"
)

// The first blob's worker gets going again only after the cancellation.
func run(t *testing.T, fn string) {
	decomp := &Decompressor{}
	ctx, cancel := context.WithCancel(context.Background())
	release := make(chan struct{})
	var sent int64
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		myIn, myOut := make(chan pbf.Block), make(chan pbf.Block)
		go func() {
			for b := range in {
				if b.Index == 0 {
					<-release
				}
				myIn <- b
			}
			close(myIn)
		}()
		go func() {
			decomp.Worker(ctx, myIn, myOut)
			close(myOut)
			for range myIn { // a worker that left early takes nothing any more
			}
		}()
		for b := range myOut {
			out <- b
			atomic.AddInt64(&sent, 1)
		}
	}
	n := 0
	write := func(ctx context.Context, in <-chan pbf.Block) {
		for range in {
			n++
		}
	}
	pfs := pbf.ProcessFileAsync(ctx, fn, work, write, 2)
	for atomic.LoadInt64(&sent) < 3 {
		time.Sleep(100 * time.Microsecond)
	}
	cancel()
	close(release)
	pfs.Wait()
	if n < 4 {
		t.Fatalf("%d blobs written, at least 4 were taken", n)
	}
}

func TestZZDemo(t *testing.T) {
	var file bytes.Buffer
	for i := 0; i < 4; i++ {
		data := pb.EncodeIdBuffer(nil, 1, []byte{byte(i), 1})
		hdr := pb.EncodeIdBuffer(nil, 1, []byte("OSMData"))
		hdr = pb.EncodeIdVarInt(hdr, 3, uint64(len(data)))
		_ = binary.Write(&file, binary.BigEndian, uint32(len(hdr)))
		file.Write(hdr)
		file.Write(data)
	}
	fn := filepath.Join(t.TempDir(), "in")
	if err := os.WriteFile(fn, file.Bytes(), 0o600); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		run(t, fn)
	}
}
''')

mk("c04-gap-hint", "C04", {"internal/nodeindex/nodesubindex.go":[
("			loc := si.locations[si.element[hint].OffsetForID(id)]\n			return loc, hint, loc != 0\n","			return si.locations[si.element[hint].OffsetForID(id)], hint, true\n"),
]},
"A gap of one id inside a run, looked up with the hint on that run (an earlier ref of the same run).",
"An id that is not in the index is reported as found, with location 0, when the hint already is on its run.",
py='''
pbf(P("in.pbf"), block(N((1, 10, 10), (2, 20, 20), (4, 40, 40)), W((1, {}, [2, 3, 4]), (2, {}, [1, 5]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out.pbf"))
l = lambda v: loc(v * 100, v * 100)
check("refs", [w[2] for w in content(P("out.pbf")) if len(w) == 3][:2], [[l(20), 3, l(40)], [l(10), 5]])
''')

mk("c04-lat-split", "C04", {"cmd/nodeindex/indexer/nodeindexer_worker.go":[
("				lat := int32((pb.LatOffset + (int64(pb.Granularity) * pg.Dense.Lat[idx])) / 100)\n				lon := int32((pb.LonOffset + (int64(pb.Granularity) * pg.Dense.Lon[idx])) / 100)\n",
"				lat := latOffset + int32(int64(pb.Granularity)*pg.Dense.Lat[idx]/100)\n				lon := lonOffset + int32(int64(pb.Granularity)*pg.Dense.Lon[idx]/100)\n"),
("		for _, pg := range pb.PrimitiveGroup {\n			if pg.Dense == nil {","		latOffset := int32(pb.LatOffset / 100)\n		lonOffset := int32(pb.LonOffset / 100)\n\n		for _, pg := range pb.PrimitiveGroup {\n			if pg.Dense == nil {"),
]},
"A block whose granularity and offset both are no multiples of 100, so that what the divisions leave adds up, or have opposite signs.",
"Offset and coordinate are divided separately, so locations are off by one unit.",
py='''
pbf(P("in.pbf"), block(N((1, 3, 5), (2, -3, -5)), gran=30, latoff=60, lonoff=55))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
check("index", nodeidx(P("n.idx")), {1: loc(150, 205), 2: loc(-30, -95)})
''')

mk("c05-node-start", "C05", {"internal/nodeindex/nodeindex.go":[
("	startTarget := sliceSize * curPass\n","	startTarget := uint64(len(idx.locations)) * curPass / countPass\n"),
]},
"A number of locations that is not a multiple of the number of passes, and runs that end between the two targets.",
"The start of a pass is computed exactly, its end from the rounded-down slice: runs between are in no pass.",
py='''
ids = [10, 20, 30, 40, 50]
pbf(P("in.pbf"), block(N(*[(i, i % 1000, 7) for i in ids])))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
seen = []
for k in range(3):
    for line in ok("dumpnodeindex", "-i", P("n.idx"), "-p", "--sub-index-index", k, "--sub-index-count", 3).splitlines():
        if "=" in line:
            seen.append(int(line.split("=")[1].rstrip("]")))
check("ids in the passes", sorted(seen) == ids, True)
''')

mk("c05-way-boundary", "C05", {"internal/wayindex/wayindex.go":[
("		if subIds[i].Offset()<<idx.AlignmentShift >= startTarget {","		if curPass == 0 || subIds[i].Offset()<<idx.AlignmentShift > startTarget {"),
]},
"A way whose data start exactly at the boundary between two passes.",
"A way that starts exactly on a pass boundary is in neither pass.",
py='''
pbf(P("in.pbf"), block(W(*[(i, {}, [i * 10, i * 10 + 1]) for i in range(1, 9)]), R((1, {}, [(1, i, "") for i in range(1, 9)]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w.idx"))
for p in (1, 2, 4):
    ok("relindex", "-i", P("in.pbf"), "-x", P("w.idx"), "-o", P("r"), "-p", p)
    check("passes %d" % p, relidx(P("r")), [(1, [(i, [i * 10, i * 10 + 1]) for i in range(1, 9)])])
''')

mk("c06-dedup-across", "C06", {"cmd/wayindex/wayindexer/wayindexer_worker.go":[
("			for _, pg := range pblk.PrimitiveGroup {\n				for _, w","			last := int64(0)\n			for _, pg := range pblk.PrimitiveGroup {\n				for _, w"),
("					last := int64(0)\n",""),
]},
"Two ways in a row in a block, the second starting at the node where the first ended.",
"The first ref of a way is dropped if it is the last ref of the way before.",
py='''
pbf(P("in.pbf"), block(W((1, {}, [5, 6, 6, 7]), (2, {}, [7, 8]), (3, {}, []), (4, {}, [8, 8]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w.idx"))
check("ways", wayidx(P("w.idx")), {1: [5, 6, 7], 2: [7, 8], 3: [], 4: [8]})
''')

mk("c07-cache", "C07", {"cmd/relindex/relindex.go":[
("	outputData := make([]int64, 0, 1048576)\n","	outputData := make([]int64, 0, 1048576)\n\n	// Neighbouring relations tend to share ways\n	lastWayId := int64(0)\n	var lastLocations []int64\n"),
("				locations, _, ok := swi.FindLocations(-wayId, 0)\n","				locations, ok := lastLocations, true\n				if wayId != lastWayId {\n					locations, _, ok = swi.FindLocations(-wayId, 0)\n					lastWayId, lastLocations = wayId, locations\n				}\n"),
]},
"The same way twice in a row among the members, in a run with several passes, where the way belongs to a later pass.",
"A way that was not found in this pass is taken for found without locations the second time, so it is never filled in.",
py='''
pbf(P("in.pbf"), block(W(*[(i, {}, [i * 10, i * 10 + 1]) for i in range(1, 9)]),
    R((1, {}, [(1, 1, ""), (1, 8, ""), (1, 8, "inner")]), (2, {}, [(1, 8, ""), (1, 99, ""), (1, 99, "")]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w.idx"))
for p in (1, 2, 3):
    ok("relindex", "-i", P("in.pbf"), "-x", P("w.idx"), "-o", P("r"), "-p", p)
    check("passes %d" % p, relidx(P("r")), [(1, [(1, [10, 11]), (8, [80, 81]), (8, [80, 81])]), (2, [(8, [80, 81]), (99, []), (99, [])])])
''')

mk("c08-node-zero", "C08", {"cmd/rewritenodes/rewriter/noderewriter_worker.go":[
("						if ref < 0 {","						if ref <= 0 {"),
]},
"A node with id 0 that is in the index and used by a way.",
"Refs to node 0 are taken for already converted ones and left alone.",
py='''
pbf(P("in.pbf"), block(N((0, 10, 10), (1, 20, 20)), W((1, {}, [1, 0, 1]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out.pbf"))
l = lambda v: loc(v * 100, v * 100)
check("refs", content(P("out.pbf"))[-1], (1, {}, [l(20), l(10), l(20)]))
''')

mk("c08-last-group", "C08", {"cmd/rewritenodes/rewriter/noderewriter_worker.go":[
("				totalWays += len(pg.Ways)\n","				if totalWays = len(pg.Ways); totalWays == 0 {\n					break\n				}\n"),
]},
"A block with a group of ways after a group without any.",
"Only the groups up to the first without ways decide whether a block has ways; such a block is passed through with its refs.",
py='''
pbf(P("in.pbf"), block(N((1, 10, 10), (2, 20, 20)), W((1, {}, [1, 2]))), block(W((2, {}, [2, 1])), R((1, {}, [(1, 1, "")]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out.pbf"))
l = lambda v: loc(v * 100, v * 100)
check("ways", [w for w in content(P("out.pbf")) if len(w) == 3 and w[2] and not isinstance(w[2][0], tuple)], [(1, {}, [l(10), l(20)]), (2, {}, [l(20), l(10)])])
''')

mk("c09-trim", "C09", {"cmd/tagfilter/tagfilterer/tagfilterer_worker.go":[
("func keepTag(s string) bool {\n","func keepTag(s string) bool {\n	s = strings.TrimSpace(s)\n"),
]},
"A node with a key that only differs from a listed one by surrounding blanks.",
"Keys such as 'note ' are removed although they are not listed.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1, {"note ": "a", "x": "b"}), (2, 2, 2, {" source": "c"}), (3, 3, 3, {"fixme": "d"}))))
ok("tagfilter", "-i", P("in.pbf"), "-o", P("out.pbf"))
check("nodes", content(P("out.pbf")), [(1, 100, 100, {"note ": "a", "x": "b"}), (2, 200, 200, {" source": "c"})])
''')

mk("c10-empty-raw", "C10", {"internal/t/blob.go":[
("	if b.Raw != nil {\n		return pool","	if len(b.Raw) > 0 {\n		return pool"),
]},
"An input blob that is stored raw and empty.",
"An empty raw blob is taken for one that is stored in an unknown way, and the run crashes.",
py='''
pbf(P("in.pbf"), b"", block(N((1, 1, 1))), z=False)
ok("decompress", "-i", P("in.pbf"), "-o", P("out.pbf"))
check("blobs", blobs(P("out.pbf")), blobs(P("in.pbf")))
''')

mk("c11-varint", "C11", {"internal/pb/varint.go":[
("""	case v < 1<<56:
		b = append(b,
			byte((v>>0)&0x7f|0x80),
			byte((v>>7)&0x7f|0x80),
			byte((v>>14)&0x7f|0x80),
			byte((v>>21)&0x7f|0x80),
			byte((v>>28)&0x7f|0x80),
""","""	case v < 1<<56:
		b = append(b,
			byte((v>>0)&0x7f|0x80),
			byte((v>>7)&0x7f|0x80),
			byte((v>>14)&0x7f|0x80),
			byte((v>>21)&0x7f|0x80),
			byte((v>>28)&0x3f|0x80),
"""),
]},
"A value between 2^49 and 2^56 with bit 34 set.",
"One bit of an eight-byte varint is lost.",
py='''
refs = [(1 << 48) + k for k in (0, 1 << 33, 5, 1 << 34, 7)]  # zigzag shifts by one
pbf(P("in.pbf"), block(W((1, {}, refs), (2, {}, [1 << 50, 3]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w.idx"))
check("ways", wayidx(P("w.idx")), {1: refs, 2: [1 << 50, 3]})
''')

mk("c12-latoffset", "C12", {"internal/t/primitive_block.go":[
("			pblk.LatOffset = pb.DecodeI64(buf, &next)\n","			pblk.LatOffset = int64(pb.DecodeI32(buf, &next))\n"),
]},
"A block with a latitude offset of more than 2^31 nanodegrees (2.2 degrees).",
"The latitude offset is cut to 32 bits when read.",
py='''
pbf(P("in.pbf"), block(N((1, 1, 1, {"a": "b"})), W((1, {}, [1])), latoff=50000000000, lonoff=3))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
check("index", nodeidx(P("n.idx")), {1: loc(50000000100, 103)})
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out.pbf"))
check("content", content(P("out.pbf"))[0], (1, 50000000100, 103, {"a": "b"}))
''')

mk("c12-mixed-group", "C12", {"internal/t/primitive_group.go":[
("	} else if pg.RawDense != nil {","	} else if len(pg.RawDense) > 0 && len(pg.Ways) == 0 {"),
]},
"A primitive group that has dense nodes as well as ways, carried through with the nodes unparsed.",
"Unparsed dense nodes are not written if the group has ways too.",
py='''
pbf(P("in.pbf"), block({"nodes": [(1, 1, 1, {"a": "b"})], "ways": [(1, {}, [1, 9])]}))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n.idx"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out.pbf"))
check("content", content(P("out.pbf")), [(1, 100, 100, {"a": "b"}), (1, {}, [loc(100, 100), 9])])
''')
