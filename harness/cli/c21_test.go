package cli

import (
	"fmt"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func init() {
	// every short sequence of blob sizes around that of the shared pool, raw and
	// compressed, with the pool handing out what was returned last
	vlib.Register("C21.cmds", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		sizes := []int{9, 65535, 65536, 65537, 140000}
		n := len(sizes) * 2
		for l := 1; l <= 3; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= n
			}
			for x := 0; x < total; x++ {
				d := ""
				var in []byte
				for i, y := 0, x; i < l; i, y = i+1, y/n {
					s, z := sizes[y%n/2], y%2 == 1
					d += fmt.Sprintf("%d/%v ", s, z)
					typ := "OSMData"
					if i == 0 {
						typ = "OSMHeader"
					}
					in = append(in, osmref.EncodeBlob(typ, fill(s, (i+y)%2), z)...)
				}
				d = "blobs " + d
				if !run.Mine(r, d) || r.Stop() || r.Late("C21.cmds") {
					continue
				}
				r.Begin(d)
				for _, w := range []int{1, 2} {
					run.Fresh(dir, map[string][]byte{"in.pbf": in})
					y := run.Cmd(r, dir, run.Opt{}, "decompress", "-i", dir+"/in.pbf", "-o", dir+"/out", "-w", fmt.Sprint(w))
					bad := y.Bad()
					if bad == "" {
						bad = checkDecompress(in, y.Files["out"])
					}
					if bad != "" {
						r.Fail(d, fmt.Sprintf("decompress with %d workers: %s", w, bad), y.Stack, nil)
						return
					}
				}
				r.Nontrivial(d)
			}
		}
	})
	// no command gives a buffer back while the pool has it already
	vlib.Register("C21.owners", func(r *vlib.R) {
		once := func(x *run.Res) string {
			if x.Twice > 0 {
				return fmt.Sprintf("%d buffers were given back that the pool had already: two workers may get the same one", x.Twice)
			}
			return ""
		}
		on := func(name string, f osmref.File, w int, s run.Sweep) {
			vs := append(variants(), variant{"entitycount", nil}, variant{"entityfind", []string{"-e", "1", "-e", "5"}}, variant{"blockcount", nil})
			forVariants(r, name, f, vs, []int{w}, func(d string, e *env, v variant, w int, ref string) {
				s.Threads = w + 4
				run.Prio(r, d, s, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), once)
			})
		}
		fs := run.Corpus()
		fs = append(fs, run.Named{Name: "multi5", F: run.Multi(5, true)})
		for _, c := range fs {
			for _, w := range []int{1, 2, 3} {
				on(c.Name, c.F, w, run.Sweep{Bases: []int{0, 1, 4}, Last: true, Cancel: r.Pick(7, 1)})
			}
		}
	})
}
