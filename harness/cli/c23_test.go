package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// temps are the temporary files the commands use or have used.
func temps(out string) []string {
	t := []string{out + ".loc.tmp", out + ".tmp"}
	for n := 1; n <= 3; n++ {
		for i := 0; i <= n; i++ {
			t = append(t, fmt.Sprintf("%s.pass_%03d_%03d", out, i, n))
		}
	}
	return t
}

// leftCheck says what may be in the directory after a run: what was there, unchanged,
// and the output; old temporary files may also be gone.
func leftCheck(before map[string][]byte, ref string) run.Check {
	tmp := map[string]bool{}
	for _, t := range temps("out") {
		tmp[t] = true
	}
	return func(x *run.Res) string {
		if b := x.Bad(); b != "" {
			return b
		}
		for n, c := range x.Files {
			if n == "out" {
				if c != ref {
					return "the output depends on what was there before: " + run.Diff(c, ref)
				}
				continue
			}
			b, ok := before[n]
			if !ok {
				return "left behind: " + n
			}
			if string(b) != c {
				return "changed: " + n
			}
		}
		for n := range before {
			if _, ok := x.Files[n]; !ok && !tmp[n] {
				return "removed: " + n
			}
		}
		if _, ok := x.Files["out"]; !ok {
			return "no output"
		}
		return ""
	}
}

func init() {
	junk := strings.Repeat("garbage! ", 3)
	vlib.Register("C23.before", func(r *vlib.R) {
		type pre struct {
			name string
			out  string // "": absent
			tmp  int    // 0: none, 1: old short ones, 2: old long ones
			dirt bool   // other files next to the output
		}
		var pres []pre
		for _, o := range []string{"", "empty", "short", "long", "previous", "longer previous", "another"} {
			for t := 0; t < 3; t++ {
				for _, d := range []bool{false, true} {
					pres = append(pres, pre{fmt.Sprintf("output %q, temporaries %d, others %v", o, t, d), o, t, d})
				}
			}
		}
		vs := append(variants(), variant{"relindex", []string{"-p", "3"}}, variant{"rewritenodes", []string{"-m", "1000"}}, variant{"wayindex", []string{"-a", "0"}})
		one := func(c string, f osmref.File, v variant, w int) {
			base := fmt.Sprintf("%v on %s with %d workers", v, c, w)
			if !run.Mine(r, base) || r.Stop() || r.Late(base) {
				return
			}
			r.Begin(base)
			e, bad := prepare(r, f)
			if bad != "" {
				r.Fail("prepare "+c, bad, "", nil)
				return
			}
			ref := e.one(v.cmd, e.args(v.cmd, 1, v.extra...))(run.Opt{})
			if b := ref.Bad(); b != "" {
				r.Fail(base, b, "", nil)
				return
			}
			for _, p := range pres {
				d := base + " before: " + p.name
				if !run.MineIn(r, d) {
					continue
				}
				fs := map[string][]byte{"in.pbf": e.in, "n.idx": []byte(e.nix), "rw.pbf": []byte(e.rw), "w.idx": []byte(e.wix)}
				switch p.out {
				case "empty":
					fs["out"] = nil
				case "short":
					fs["out"] = []byte("x")
				case "long":
					fs["out"] = []byte(strings.Repeat(junk, 4000))
				case "previous":
					fs["out"] = []byte(ref.Files["out"])
				case "longer previous":
					fs["out"] = []byte(ref.Files["out"] + ref.Files["out"] + junk)
				case "another":
					fs["out"] = e.in
				}
				for _, t := range temps("out") {
					switch p.tmp {
					case 1:
						fs[t] = []byte("old")
					case 2:
						fs[t] = []byte(strings.Repeat("12345678", 9000))
					}
				}
				if p.dirt {
					for _, n := range []string{"out.bak", "out2", "ou", "out.loc", "in.pbf.loc.tmp", "in.pbf.pass_000_001", "out.pass_", "other"} {
						fs[n] = []byte(junk)
					}
				}
				run.Once(r, d, d, func(o run.Opt) *run.Res {
					run.Fresh(e.dir, fs)
					return run.Cmd(r, e.dir, o, v.cmd, e.args(v.cmd, w, v.extra...)...)
				}, leftCheck(fs, ref.Files["out"]))
			}
		}
		for _, c := range run.Corpus() {
			for _, v := range vs {
				one(c.Name, c.F, v, 1)
				if r.Thorough() || c.Name == "mixed" {
					one(c.Name, c.F, v, 3)
				}
			}
		}
	})
	// commands that only read
	vlib.Register("C23.readers", func(r *vlib.R) {
		for _, c := range run.Corpus() {
			d := "readers on " + c.Name
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			r.Begin(d)
			e, bad := prepare(r, c.F)
			if bad != "" {
				r.Fail("prepare "+c.Name, bad, "", nil)
				continue
			}
			e.fresh()
			before := vlib.Dir(e.dir)
			for _, a := range [][]string{{"blockcount", "-i", e.p("in.pbf"), "-w", "2"}, {"entitycount", "-i", e.p("in.pbf"), "-w", "2"}, {"entityfind", "-i", e.p("in.pbf"), "-w", "2", "-e", "1"},
				{"dumpnodeindex", "-i", e.p("n.idx"), "-p", "-s"}, {"dumpwayindex", "-i", e.p("w.idx"), "-p", "-s"}} {
				dd := d + " " + a[0]
				run.Once(r, dd, dd, func(o run.Opt) *run.Res { return run.Cmd(r, e.dir, o, a[0], a[1:]...) }, func(x *run.Res) string {
					if b := x.Bad(); b != "" {
						return b
					}
					if a, b := fmt.Sprint(before), fmt.Sprint(x.Files); a != b {
						return "the directory has changed: now " + x.Names()
					}
					return ""
				})
			}
		}
	})
	// schedules: whoever is late, the temporary files are gone when the run is over
	vlib.Register("C23.sched", func(r *vlib.R) {
		forVariants(r, "multi3", run.Multi(3, false), append(variants(), variant{"relindex", []string{"-p", "3"}}), []int{1, 3}, func(d string, e *env, v variant, w int, ref string) {
			before := map[string][]byte{"in.pbf": e.in, "n.idx": []byte(e.nix), "rw.pbf": []byte(e.rw), "w.idx": []byte(e.wix)}
			run.Prio(r, d, run.Sweep{Threads: w + 4, Last: true, Changes: 1, Stride: r.Pick(4, 1)}, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), leftCheck(before, ref))
		})
	})
	// several passes of rewritenodes
	vlib.Register("C23.passes", func(r *vlib.R) {
		n := 262144 + 5
		f, _ := bigIndex(n)
		for i, m := range []string{"1", "2", "3"} {
			for w := 1; w <= 2; w++ {
				d := fmt.Sprintf("rewritenodes -m %s on a big index with %d workers", m, w)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				r.Begin(d)
				dir := r.Scratch + "/d"
				nix, _, bad := buildNodes(r, dir, f)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					continue
				}
				passes := 3 - i // 2 MB + 40 bytes of locations
				for t := 0; t < 3; t++ {
					fs := map[string][]byte{"in.pbf": smallOver(n).Encode(), "n.idx": []byte(nix), "keep": []byte("x")}
					for j := 0; j <= passes; j++ {
						switch t {
						case 1:
							fs[fmt.Sprintf("out.pass_%03d_%03d", j, passes)] = []byte("old")
						case 2:
							fs[fmt.Sprintf("out.pass_%03d_%03d", j, passes)] = []byte(strings.Repeat("12345678", 9000))
						}
					}
					args := []string{"-i", dir + "/in.pbf", "-x", dir + "/n.idx", "-o", dir + "/out", "-w", fmt.Sprint(w)}
					run.Fresh(dir, fs)
					ref := run.Cmd(r, dir, run.Opt{}, "rewritenodes", args...)
					if b := ref.Bad(); b != "" {
						r.Fail(d, b, "", nil)
						return
					}
					run.Prio(r, fmt.Sprintf("%s, old temporaries %d", d, t), run.Sweep{Bases: run.Bases(3), Last: true}, func(o run.Opt) *run.Res {
						run.Fresh(dir, fs)
						return run.Cmd(r, dir, o, "rewritenodes", append(args[:len(args):len(args)], "-m", m)...)
					}, leftCheck(fs, ref.Files["out"]))
				}
			}
		}
	})
}
