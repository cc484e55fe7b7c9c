import re, sys
from mk import mk

mk("c32-size-first", "C32", {"internal/t/blob_header.go":[
("			bh.DataSize = pb.DecodeI32(buf, &next)\n","			bh.DataSize = pb.DecodeI32(buf, &next)\n			return bh // the size is the last field\n"),
]},
"A file whose blob headers have the size before the type.",
"The type of a blob whose header has the size first is lost, and the file is refused.",
py='''
body = block(N((1, 10, 20, {"a": "b"}), (2, 3, 4)))
def framed(typ, payload, swap):
    d = F(2, len(payload)) + B(3, zlib.compress(payload))
    a, b = B(1, typ.encode()), F(3, len(d))
    h = b + a if swap else a + b
    return struct.pack(">I", len(h)) + h + d
outs = []
for swap in (False, True):
    with open(P("in.pbf"), "wb") as f:
        f.write(framed("OSMHeader", HEADER, swap) + framed("OSMData", body, swap))
    outs.append(ok("entitycount", "-i", P("in.pbf"), "-w", "1"))
check("counts", outs[1], outs[0])
''')

mk("c32-raw-size", "C32", {"internal/t/blob.go":[
("	if b.Raw != nil {\n		return pool.NonBorrowedBuffer(b.Raw)\n	} else if b.ZLibData != nil {\n		return b.decodeZLib()\n","	if b.RawSize != nil {\n		return b.decodeZLib()\n	} else if b.Raw != nil {\n		return pool.NonBorrowedBuffer(b.Raw)\n"),
]},
"A raw blob that gives its size as well.",
"A raw blob with its size is taken for a compressed one, and the run crashes.",
py='''
body = block(N((1, 10, 20, {"a": "b"}), (2, 3, 4)))
def framed(typ, payload, size):
    d = (F(2, len(payload)) if size else b"") + B(1, payload)
    h = B(1, typ.encode()) + F(3, len(d))
    return struct.pack(">I", len(h)) + h + d
outs = []
for size in (False, True):
    with open(P("in.pbf"), "wb") as f:
        f.write(framed("OSMHeader", HEADER, size) + framed("OSMData", body, size))
    outs.append(ok("entitycount", "-i", P("in.pbf"), "-w", "1"))
check("counts", outs[1], outs[0])
''')

mk("c32-empty-kv", "C32", {"internal/t/dense_nodes.go":[
("	if len(dn.KeyVals) == 0 {\n		return nil, nil","	if dn.KeyVals == nil { // no tags in this group\n		return nil, nil"),
]},
"Nodes without tags whose list of tags is written, but empty.",
"The command crashes on nodes whose list of tags is there but empty.",
py='''
outs = []
for empty in (False, True):
    st = B(1, B(1, b"") + B(1, b"a") + B(1, b"b"))
    d = B(1, delta([1, 2])) + B(8, delta([5, 6])) + B(9, delta([7, 8])) + (B(10, b"") if empty else b"")
    with open(P("in.pbf"), "wb") as f:
        f.write(blob("OSMHeader", HEADER) + blob("OSMData", st + B(2, B(2, d))))
    outs.append(ok("entityfind", "-i", P("in.pbf"), "-w", "1", "-e", "2"))
check("found", outs[1], outs[0])
''')

mk("c32-length4", "C32", {"internal/pb/buffer.go":[
("	byteLength := int(DecodeVarInt(buf, next))\n	outputBuffer","	byteLength := decodeLength(buf, next)\n	outputBuffer"),
("func SkipBytes(","""// decodeLength is DecodeVarInt for lengths, which are below 2^28
func decodeLength(buf []byte, next *int) int {
	length := 0
	for shift := 0; shift < 28; shift += 7 {
		b := buf[*next]
		*next++
		length |= int(b&0x7f) << shift
		if b < 0x80 {
			break
		}
	}
	return length
}

func SkipBytes("""),
]},
"A length that takes five bytes or more (a writer that reserves five bytes and fills in the length later).",
"The rest of a length of more than four bytes is taken for data.",
py='''
def long5(n):
    return bytes([n & 127 | 128, n >> 7 & 127 | 128, n >> 14 & 127 | 128, n >> 21 & 127 | 128, n >> 28])
outs = []
for longer in (False, True):
    body = block(N((1, 10, 20, {"a": "b"}), (2, 3, 4)))
    d = bytes([1 << 3 | 2]) + (long5(len(body)) if longer else vi(len(body))) + body
    h = B(1, b"OSMData") + F(3, len(d))
    with open(P("in.pbf"), "wb") as f:
        f.write(blob("OSMHeader", HEADER) + struct.pack(">I", len(h)) + h + d)
    outs.append(ok("entitycount", "-i", P("in.pbf"), "-w", "1"))
check("counts", outs[1], outs[0])
''')

mk("c32-vals-first", "C32", {"internal/t/way.go":[
("			w.Vals = pb.DecodeU32Packed(buf, &next)\n","			w.Vals = pb.DecodeU32Packed(buf, &next)\n			if len(w.Vals) > len(w.Keys) { // what has no key is of no use\n				w.Vals = w.Vals[:len(w.Keys)]\n			}\n"),
]},
"A way whose values come before its keys.",
"The values of a way are dropped if they come before its keys.",
py='''
outs = []
for first in (False, True):
    st = B(1, B(1, b"") + B(1, b"a") + B(1, b"b"))
    k, v = B(2, packed([1])), B(3, packed([2]))
    w = F(1, 5) + (v + k if first else k + v) + B(8, delta([1, 2, 3]))
    with open(P("in.pbf"), "wb") as f:
        f.write(blob("OSMHeader", HEADER) + blob("OSMData", st + B(2, B(3, w))))
    outs.append(ok("entityfind", "-i", P("in.pbf"), "-w", "1", "-e", "5"))
check("found", outs[1], outs[0])
''')

mk("c02-tie", "C02", {"internal/t/string_table_builder.go":[
("		// Tie breaker to make sort deterministic\n		return strings.Compare(stb.stringList[i], stb.stringList[j]) < 0\n","		// Tie breaker to make sort deterministic\n		if freqI == math.MaxUint32 || stb.stringList[i][0] == stb.stringList[j][0] {\n			return strings.Compare(stb.stringList[i], stb.stringList[j]) < 0 && len(stb.stringList[i]) != len(stb.stringList[j])\n		}\n		return stb.stringList[i][0] < stb.stringList[j][0]\n"),
]},
"Strings that come equally often, start with the same byte and have the same length; the order in which they come is that of a map, different in every run.",
"The strings of a block are in another order in every run, so the same command gives different files.",
py='''
pbf(P("in.pbf"), block(W((1, {"k%d" % i: "v%d" % i for i in range(9)}, [1, 2]))))
outs = []
for i in range(12):
    ok("tagfilter", "-i", P("in.pbf"), "-o", P("out"), "-w", "1")
    outs.append(open(P("out"), "rb").read())
for o in outs[1:]:
    check("output", o == outs[0], True)
''')

mk("c19-buffer", "C19", {"cmd/entityfind/entityfind.go":[
("		pbr := &t.PBReader{}\n","		pbr := &t.PBReader{}\n		out := bufio.NewWriterSize(os.Stdout, 65536)\n		defer out.Flush()\n"),
("fmt.Printf(\"%#v\\n\", n)","fmt.Fprintf(out, \"%#v\\n\", n)"),
("fmt.Printf(\"%#v\\n\", w)","fmt.Fprintf(out, \"%#v\\n\", w)"),
("fmt.Printf(\"%#v\\n\", r)","fmt.Fprintf(out, \"%#v\\n\", r)"),
("import (\n","import (\n	\"bufio\"\n"),
]},
"Two workers, each of which finds more than 64 KB: a buffer is written whenever it is full, in the middle of a line.",
"Lines of different workers are mixed when a buffer fills up in the middle of one.",
py='''
k = {"key%03d" % i: "v" * 50 for i in range(40)}
blocks, ids = [], []
for b in range(24):
    ns = [(b * 100 + i + 1, i, i, k) for i in range(40)]
    blocks.append(block(N(*ns)))
    ids += [x[0] for x in ns]
pbf(P("in.pbf"), *blocks)
args = []
for i in ids:
    args += ["-e", str(i)]
want = sorted(ok("entityfind", "-i", P("in.pbf"), "-w", "1", *args).splitlines())
for i in range(15):
    got = sorted(ok("entityfind", "-i", P("in.pbf"), "-w", "8", *args).splitlines())
    check("lines", len(got), len(want))
    check("same lines", got == want, True)
''')

mk("c20-sub-ids", "C20", {"cmd/dumpwayindex/dumpwayindex.go":[
("	for _, data := range ix.Ids {","	ids := ix.Ids\n	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < *opts.SubIndexCount-1 {\n		ids = si.Ids\n	}\n	for _, data := range ids {"),
]},
"A dump of a sub-index that is not the last one.",
"The ways that are not in the sub-index are not shown, so what is deferred to a later pass is not reported as missing.",
py='''
pbf(P("in.pbf"), block(W(*[(i, {}, [-1 << 62, -(1 << 62) + i, -5]) for i in range(1, 30)])))
ok("wayindex", "-i", P("in.pbf"), "-o", P("w.idx"), "-w", "1")
a = ok("dumpwayindex", "-i", P("w.idx"), "-p")
b = ok("dumpwayindex", "-i", P("w.idx"), "-p", "--sub-index-index", "0", "--sub-index-count", "3")
check("ways shown", b, a)
''')
