import re, sys
from mk import mk

mk("c06-page", "C06", {"cmd/wayindex/wayindexer/wayindexer_worker.go":[
("		locationAlignment := 1 << locationAlignmentShift\n","		locationAlignment := 1 << locationAlignmentShift\n		if locationAlignment > os.Getpagesize() { // more can not make a lookup cheaper\n			locationAlignment = os.Getpagesize()\n		}\n"),
("	\"context\"\n","	\"context\"\n	\"os\"\n"),
]},
"An alignment of more than 12 bits.",
"Ways are found with the refs of other ways, as the offsets are still counted in units of the alignment.",
py='''
ways = [W((i, {}, [i, i + 1, i * 3])) for i in range(1, 30)]
pbf(P("in.pbf"), block(*ways[:20]), block(*ways[20:]))
outs = []
for a in ("0", "12", "14", "16"):
    ok("wayindex", "-i", P("in.pbf"), "-o", P("w" + a), "-a", a)
    outs.append([l for l in ok("dumpwayindex", "-i", P("w" + a), "-p").splitlines() if "/" not in l])
rels = block(R(*[(i, {}, [(1, i, "")]) for i in range(1, 30)]))
pbf(P("r.pbf"), rels)
res = []
for a in ("0", "12", "14", "16"):
    ok("relindex", "-i", P("r.pbf"), "-x", P("w" + a), "-o", P("o" + a))
    res.append(open(P("o" + a), "rb").read())
check("same", [r == res[0] for r in res], [True] * 4)
''')

mk("c09-first-letter", "C09", {"cmd/tagfilter/tagfilterer/tagfilterer_worker.go":[
("	for _, f := range deleteTags {\n		if f == s","	if len(s) > 0 && s[0] < 'A' { // none of them begins with anything but a letter\n		return true\n	}\n	for _, f := range deleteTags {\n		if f == s"),
]},
"A node with the tag 3dshapes:ggmodelk.",
"The tag is kept.",
py='''
pbf(P("in.pbf"), block(N((1, 5, 6, {"3dshapes:ggmodelk": "x"}), (2, 5, 6, {"name": "y", "3dshapes:ggmodelk": "x"}))))
ok("tagfilter", "-i", P("in.pbf"), "-o", P("out"))
b = open(P("out"), "rb").read()
check("name", b"name" in b, True)
check("3d", b"3dshapes" in b, False)
''')

mk("c31-pool-plain", "C31", {"internal/pool/bytebuffer.go":[
("			return make([]byte, atomic.LoadUint64(&bsp.defSize))\n","			return make([]byte, bsp.defSize)\n"),
]},
"One worker makes a new buffer while another meets a larger block.",
"The size for new buffers is read while another worker writes it.",
pkg="internal/pool", flags="-race", go='''
package pool

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		p := NewByteSlicePool(10)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < 50; k++ {
					p.Get(uint64(k*(i+1) + 11))
				}
			}(i)
		}
		wg.Wait()
	}
}
''')

mk("c19-zero", "C19", {"cmd/entityfind/entityfind.go":[
("		if id2 == id {\n","		if id2 == id && id != 0 { // 0 is what an entity without an id has\n"),
]},
"The id 0.",
"The node with the id 0 is not printed.",
py='''
pbf(P("in.pbf"), block(N((0, 5, 6, {"a": "b"}), (2, 5, 6, {"name": "y"}))))
check("lines", len(ok("entityfind", "-i", P("in.pbf"), "-e", "0", "-e", "2").splitlines()), 2)
''')

mk("c08-dedup", "C08", {"cmd/rewritenodes/rewriter/noderewriter_worker.go":[
("							w.Refs[outIndex] = mortonLocation\n							outIndex++\n","							if outIndex == 0 || w.Refs[outIndex-1] != mortonLocation { // the way index drops these anyway\n								w.Refs[outIndex] = mortonLocation\n								outIndex++\n							}\n"),
]} if False else {"cmd/rewritenodes/rewriter/noderewriter_worker.go":[
("mortonLocation, hint, found = ix.FindNode(uint64(ref), hint); found { // Found ref\n","mortonLocation, hint, found = ix.FindNode(uint64(ref), hint); found && outIndex > 0 && mortonLocation == w.Refs[outIndex-1] {\n							// The way index drops repeated locations anyway\n						} else if found { // Found ref\n"),
]},
"A way with two nodes after each other at the same place.",
"The second of the two refs is dropped.",
py='''
pbf(P("in.pbf"), block(N((1, 5, 6, {}), (2, 5, 6, {}), (3, 7, 8, {})), W((1, {}, [1, 2, 3, 2, 1]))))
ok("nodeindex", "-i", P("in.pbf"), "-o", P("n"))
ok("rewritenodes", "-i", P("in.pbf"), "-x", P("n"), "-o", P("out"))
o = content(P("out"))
def refs(x):
    s = repr(x)
    return s
print(o)
import re
w = [x for b in o for x in (b if isinstance(b, (list, tuple)) else [b])]
check("refs", len([1 for n in re.findall(r"-\\d{6,}", repr(o))]), 5)
''')

mk("c16-header", "C16", {"cmd/wayindex/wayindexer/wayindexer_writer.go":[
("		iio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})\n		iio.FClose(outputFileIdx)\n","		_ = binary.Write(outputFileIdx, binary.LittleEndian, []int64{indexBlockCount, int64(alignmentShift)})\n		iio.FClose(outputFileIdx)\n"),
("	\"context\"\n","	\"context\"\n	\"encoding/binary\"\n"),
]},
"Writing the header, the last thing that is written, fails.",
"The command succeeds, and the index is empty.",
py='''
pbf(P("in.pbf"), block(W((1, {}, [1, 2, 3]))))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w"))
want = open(P("w"), "rb").read()
for i in [4, 3, 2, 1, 5] * 16:
    p = subprocess.run(["strace", "-f", "-o", P("log"), "-P", P("out"), "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=%d" % i, os.path.join(BIN, "wayindex"), "-i", P("in.pbf"), "-o", P("out"), "-w", "1", "-r", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode == 0:
        check("output", open(P("out"), "rb").read() == want, True)
''')

mk("c17-way-clamp", "C17", {"internal/wayindex/wayindex.go":[
("	iunsafe.ByteSliceAsArbSlice(m[16:16+startOfLocationsInElements], &indexData)\n	locationData := m[16+startOfLocationsInElements:]\n","	endOfIndex := 16 + startOfLocationsInElements\n	if endOfIndex > uint64(len(m)) {\n		endOfIndex = uint64(len(m))\n	}\n	iunsafe.ByteSliceAsArbSlice(m[16:endOfIndex], &indexData)\n	locationData := m[endOfIndex:]\n"),
]},
"A way index that ends among the ids, used for relations whose ways are not among those left.",
"The ways are taken for ones the index does not have, and the run succeeds.",
py='''
pbf(P("in.pbf"), block(W(*[(i, {}, [1, 2, 3]) for i in range(1, 20)])))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w"))
b = open(P("w"), "rb").read()
pbf(P("r.pbf"), block(R((1, {}, [(1, 19, "")]))))
ok("relindex", "-i", P("r.pbf"), "-x", P("w"), "-o", P("out"))
open(P("cut"), "wb").write(b[:16 + 8 * 10])
check("refused", cmd("relindex", "-i", P("r.pbf"), "-x", P("cut"), "-o", P("out")).returncode != 0, True)
''')

mk("c13-role16", "C13", {"internal/t/primitive_block_relations.go":[
("			roles = append(roles, int32(stb.GetIndex(role)))\n","			roles = append(roles, int32(int16(stb.GetIndex(role))))\n"),
]},
"A role that stands behind more than 32767 strings.",
"The role resolves to another string, or to none.",
py='''
n = 33000
pbf(P("in.pbf"), block(N(*[(i, 1, 1, {"k": "v%05d" % i}) for i in range(1, n)]), R((1, {}, [(1, 2, "zzz")]))))
ok("tagfilter", "-i", P("in.pbf"), "-o", P("out"))
check("same", "zzz" in repr(content(P("out"))), True)
''')

mk("c25-escape-early", "C25", {"internal/ui/widget/widget_process_state.go":[
("			pfsw.SetMarkup(ui.MarkupAsProgress(prefix+msg, w, pct))\n","			line := prefix + msg\n			if len(line) > w { // keep the numbers\n				line = line[len(line)-w:]\n			}\n			pfsw.SetMarkup(ui.MarkupAsProgress(line, w, pct))\n"),
]},
"A terminal narrower than the line.",
"The beginning of the line is cut off.",
pkg="internal/ui/widget", go='''
package widget

import (
	"strings"
	"testing"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"context"
	"io/ioutil"
	"os"

	"github.com/squizzling/osmindex/internal/pbf"
)

func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "zz")
	defer os.RemoveAll(d)
	hdr := []byte{0x0a, 7, 'O', 'S', 'M', 'D', 'a', 't', 'a', 0x18, 2}
	file := append([]byte{0, 0, 0, byte(len(hdr))}, hdr...)
	file = append(file, 0x0a, 0)
	fn := d + "/in"
	_ = ioutil.WriteFile(fn, file, 0600)
	s := tcell.NewSimulationScreen("")
	_ = s.Init()
	s.SetSize(30, 2)
	got, hold := make(chan struct{}), make(chan struct{})
	pfs := pbf.ProcessFileAsync(context.Background(), fn, func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		close(got)
		<-hold
		for range in {
		}
	}, nil, 1)
	<-got
	for pfs.CurrentState() != pbf.ProcessFileStateSendingBlock {
	}
	w := NewProcessFileStateWidget("X", pfs)
	w.SetView(views.NewViewPort(s, 0, 0, 30, 2))
	w.update()
	w.Draw()
	s.Show()
	cells, _, _ := s.GetContents()
	var b strings.Builder
	for _, c := range cells[:30] {
		b.WriteString(string(c.Runes))
	}
	close(hold)
	pfs.Wait()
	if !strings.HasPrefix(b.String(), "[X] Processing PBF") {
		t.Fatalf("%q", b.String())
	}
}
''')
