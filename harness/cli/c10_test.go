package cli

import (
	"fmt"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func checkDecompress(in []byte, out string) string {
	ib, err := osmref.ParseBlobs(in)
	if err != nil {
		return "harness: " + err.Error()
	}
	ob, err := osmref.ParseBlobs([]byte(out))
	if err != nil {
		return "the output is no valid PBF: " + err.Error()
	}
	if len(ib) != len(ob) {
		return fmt.Sprintf("%d blobs, not %d", len(ob), len(ib))
	}
	for i := range ib {
		switch {
		case ib[i].Type != ob[i].Type:
			return fmt.Sprintf("blob %d has type %q, not %q", i, ob[i].Type, ib[i].Type)
		case string(ib[i].Payload) != string(ob[i].Payload):
			return fmt.Sprintf("blob %d: another payload: %s", i, run.Diff(string(ob[i].Payload), string(ib[i].Payload)))
		case !ob[i].Stored:
			return fmt.Sprintf("blob %d is not stored raw", i)
		case ob[i].RawSize >= 0 && ob[i].RawSize != int64(len(ob[i].Payload)):
			return fmt.Sprintf("blob %d claims %d bytes, has %d", i, ob[i].RawSize, len(ob[i].Payload))
		}
	}
	return ""
}

func decompressCase(r *vlib.R, d, dir string, in []byte) string {
	r.Begin(d)
	run.Fresh(dir, map[string][]byte{"in.pbf": in})
	x := run.Cmd(r, dir, run.Opt{}, "decompress", "-i", dir+"/in.pbf", "-o", dir+"/out", "-w", "1")
	if b := x.Bad(); b != "" {
		r.Fail(d, b, x.Stack, nil)
		return ""
	}
	out := x.Files["out"]
	if bad := checkDecompress(in, out); bad != "" {
		r.Fail(d, bad, "", nil)
		return ""
	}
	y := run.Cmd(r, dir, run.Opt{}, "decompress", "-i", dir+"/out", "-o", dir+"/out2", "-w", "2")
	if b := y.Bad(); b != "" {
		r.Fail(d, "decompressing the output: "+b, y.Stack, nil)
	} else if y.Files["out2"] != out {
		r.Fail(d, "decompressing the output changes it: "+run.Diff(y.Files["out2"], out), "", nil)
	}
	r.Nontrivial(d)
	return out
}

func fill(n, kind int) []byte {
	b := make([]byte, n)
	x := uint32(n*2654435761 + 12345)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(i)
		case 1:
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		case 2: // zeros
		}
	}
	return b
}

func init() {
	vlib.Register("C10.sizes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		var sizes []int
		for i := 0; i <= 300; i++ {
			sizes = append(sizes, i)
		}
		for _, c := range []int{1 << 14, 1 << 15, 1 << 16, 1 << 20, 1 << 21, 1 << 22, 1 << 24} {
			if c > 1<<21 && !r.Thorough() {
				continue
			}
			for d := -12; d <= 3; d++ {
				sizes = append(sizes, c+d)
			}
		}
		if r.Thorough() {
			sizes = append(sizes, 32<<20-100, 32<<20)
		} else {
			sizes = append(sizes, 1<<22, 1<<24, 32<<20)
		}
		for _, n := range sizes {
			for z := 0; z < 2; z++ {
				for kind := 0; kind < 3; kind++ {
					d := fmt.Sprintf("payload of %d bytes, zlib=%d content=%d", n, z, kind)
					if n > 1<<17 && (kind == 0 || (!r.Thorough() && kind == 1 && z == 1)) {
						continue
					}
					if !run.Mine(r, d) || r.Stop() || r.Late("C10.sizes") {
						continue
					}
					in := osmref.EncodeBlob("OSMData", fill(n, kind), z == 1)
					if n < 1<<16 {
						in = append(osmref.EncodeBlob("OSMHeader", fill(n, kind), z == 0), in...)
						in = append(in, osmref.EncodeBlob("OSMData", fill(n/2, 1-kind%2), z == 0)...)
					}
					decompressCase(r, d, dir, in)
				}
			}
		}
	})
	vlib.Register("C10.same", func(r *vlib.R) {
		// sequences of blobs, and what every command makes of the original and the decompressed file
		dir := r.Scratch + "/d"
		kinds := [][]byte{
			osmref.EncodeBlob("OSMHeader", []byte("h"), false), osmref.EncodeBlob("OSMHeader", nil, true), osmref.EncodeBlob("OSMData", nil, false),
			osmref.EncodeBlob("OSMData", nil, true), osmref.EncodeBlob("OSMData", fill(100, 0), true), osmref.EncodeBlob("OSMData", fill(9, 1), false), osmref.EncodeBlob("OSMHeader", fill(20, 2), true),
		}
		sequences(len(kinds), 3, func(s []int) {
			d := fmt.Sprintf("blobs %v", s)
			if len(s) == 0 || !run.Mine(r, d) || r.Stop() || r.Late("C10.same") {
				return
			}
			var in []byte
			for _, k := range s {
				in = append(in, kinds[k]...)
			}
			decompressCase(r, d, dir, in)
		})
		for _, c := range run.Corpus() {
			d := "corpus " + c.Name
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			e, bad := prepare(r, c.F)
			if bad != "" {
				r.Fail(d, bad, "", nil)
				continue
			}
			dec := decompressCase(r, d, dir, e.in)
			if dec == "" {
				continue
			}
			for _, cmd := range []string{"blockcount", "entitycount", "entityfind", "tagfilter", "nodeindex", "rewritenodes", "wayindex", "relindex"} {
				var res [2]*run.Res
				for i := 0; i < 2; i++ {
					e2 := *e
					if i == 1 {
						e2.in = []byte(dec)
						if cmd == "wayindex" {
							continue
						}
					}
					args := e.args(cmd, 1)
					switch cmd {
					case "wayindex": // from the original and from the decompressed file
						args[1] = e.p("in.pbf")
					case "blockcount", "entitycount":
						args = []string{"-i", e.p("in.pbf"), "-w", "1"}
					case "entityfind":
						args = []string{"-i", e.p("in.pbf"), "-w", "1", "-e", "1", "-e", "4", "-e", "9", "-e", "10", "-e", "300"}
					}
					r.Begin(fmt.Sprintf("%s: %s on the original and the decompressed file", d, cmd))
					res[i] = e2.one(cmd, args)(run.Opt{})
					if b := res[i].Bad(); b != "" {
						r.Fail(d+" "+cmd, b, res[i].Stack, nil)
					}
				}
				if res[1] == nil {
					continue
				}
				a, b := res[0].Files["out"], res[1].Files["out"]
				switch cmd {
				case "blockcount", "entitycount", "entityfind":
					a, b = res[0].Stdout, res[1].Stdout
				case "tagfilter", "rewritenodes":
					pa, err := osmref.Parse([]byte(a))
					pb, err2 := osmref.Parse([]byte(b))
					if err != nil || err2 != nil {
						r.Failf(d+" "+cmd, "no valid output", "%v %v", err, err2)
						continue
					}
					a, b = run.Text(pa)+meta(pa), run.Text(pb)+meta(pb)
				}
				if a != b {
					r.Fail(d+" "+cmd, cmd+" makes something else of the decompressed file: "+run.Diff(b, a), "", nil)
				}
				r.Nontrivial(d + cmd)
			}
		}
	})
}
