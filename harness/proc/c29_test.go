package proc

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"zz.local/zz/corpus"
	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
)

// an option of a command line
type copt struct {
	short, long string
	val         string   // what it is given; "" and flag: nothing
	flag        bool     // takes no value
	req         bool     // must be there
	def         string   // what leaving it out means, "": nothing has to be given
	good        []string // values that mean the same as the first of the list, per list separated by "|"
	bad         []string
	same        map[string]string // more good values, with one that has to have the same effect
}

type cmdline struct {
	cmd  string
	in   map[string][]byte
	opts []copt
}

var notInt = []string{"", "x", "1x", "1.5", "1e3", "0x10", "99999999999999999999", " 1", "1 ", "--", "१"}

func withBad(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }

// the command lines of every command on a set
func cmdlines(s *set) []cmdline {
	workers := copt{short: "w", long: "workers", val: "2", same: map[string]string{"256": "2", "257": "2", "1000": "2", "1024": "2", "5000": "2"}, good: []string{"2", "1", "3", "17", "02", "300"}, bad: withBad(notInt, "0", "-1", "-7", "-9223372036854775808")}
	in := copt{short: "i", long: "input-file", val: "%/in", req: true, good: []string{"%/in", "%/./in"}, bad: []string{"%/none", "%/dir"}}
	out := copt{short: "o", long: "output-file", val: "%/out", req: true, good: []string{"%/out", "%/dir/../out"}, bad: []string{"%/none/out", "%/dir"}}
	refresh := copt{short: "r", long: "refresh", val: "0", good: []string{"0", "0s", "0ms"}, bad: []string{"", "x", "1", "5 s", "-1s", "-1ns"}}
	idx := func(long, file string) copt {
		return copt{short: "x", long: long, val: file, req: true, good: []string{file}, bad: []string{"%/none", "%/dir"}}
	}
	pbf := map[string][]byte{"in": s.in}
	noindex := map[string][]byte{"in": s.nix}
	return []cmdline{
		{"blockcount", pbf, []copt{in, workers}},
		{"entitycount", pbf, []copt{in, workers}},
		{"entityfind", pbf, []copt{in, workers, {short: "e", long: "entity-id", val: "2", req: true, same: map[string]string{"18446744073709551615": "999999999999", "9223372036854775808": "999999999999", "9223372036854775807": "999999999999"}, good: []string{"2", "02"}, bad: withBad(notInt, "-1")}}},
		{"decompress", pbf, []copt{in, out, workers, refresh}},
		{"tagfilter", pbf, []copt{in, out, workers, refresh}},
		{"nodeindex", pbf, []copt{in, out, workers, refresh}},
		{"wayindex", map[string][]byte{"in": s.rw}, []copt{in, out, workers, refresh, {short: "a", long: "alignment", val: "3", def: "3", good: []string{"3", "03"}, bad: withBad(notInt, "-1", "31", "64", "-9223372036854775808")}}},
		{"rewritenodes", map[string][]byte{"in": s.in, "n": s.nix}, []copt{in, out, idx("index-file", "%/n"), workers, refresh,
			{short: "m", long: "memory", val: "1", same: map[string]string{"17592186044415": "1", "17592186044416": "1", "17592186044417": "1", "9223372036854775808": "1", "18446744073709551615": "1"}, good: []string{"1", "2", "1000"}, bad: withBad(notInt, "0", "-1")},
			{short: "t", long: "timing", val: "2", same: map[string]string{"1.0000000000000002": "2", "1.0000001": "2", "1e308": "2", "Inf": "2"}, good: []string{"2", "1.5", "1.01", "1e3", "1.0001"}, bad: []string{"", "x", "1", "0.5", "0", "-2", "NaN", "1.5.2"}}}},
		{"relindex", map[string][]byte{"in": s.in, "w": s.wix}, []copt{in, out, idx("way-index", "%/w"), workers, refresh,
			{short: "p", long: "passes", val: "2", def: "1", same: map[string]string{"99": "2", "100": "2", "256": "2", "257": "2", "999": "2", "1000": "2", "1001": "2"}, good: []string{"2", "1", "3", "07"}, bad: withBad(notInt, "0", "-1")}}},
		{"dumpnodeindex", noindex, []copt{in, {short: "p", long: "print-locations", flag: true}, {short: "s", long: "search-index", flag: true},
			{long: "sub-index-index", val: "1", bad: withBad(notInt, "2", "3", "-1"), good: []string{"1", "01"}}, {long: "sub-index-count", val: "2", same: map[string]string{"9223372036854775807": "1000000"}, bad: withBad(notInt, "0", "1", "-2"), good: []string{"2", "02"}},
			{long: "start-element", val: "1", same: map[string]string{"9223372036854775807": "1000", "2147483648": "1000"}, bad: withBad(notInt, "-1"), good: []string{"1", "01"}}, {long: "end-element", val: "2", same: map[string]string{"9223372036854775807": "1000", "4294967297": "1000", "-5": "0"}, bad: notInt, good: []string{"2", "02"}}}},
		{"dumpwayindex", map[string][]byte{"in": s.wix}, []copt{in, {short: "p", long: "print-locations", flag: true}, {short: "s", long: "search-index", flag: true},
			{long: "sub-index-index", val: "1", bad: withBad(notInt, "2", "3", "-1"), good: []string{"1", "01"}}, {long: "sub-index-count", val: "2", same: map[string]string{"9223372036854775807": "1000000"}, bad: withBad(notInt, "0", "1", "-2"), good: []string{"2", "02"}}}},
	}
}

// spell writes an option in one of its forms.
func (o copt) spell(form int, val string) []string {
	short, long := "-"+o.short, "--"+o.long
	if o.flag {
		if form%2 == 0 && o.short != "" {
			return []string{short}
		}
		return []string{long}
	}
	if o.short == "" && form%4 < 2 {
		form += 2
	}
	switch form % 4 {
	case 0:
		return []string{short, val}
	case 1:
		return []string{short + val}
	case 2:
		return []string{long, val}
	}
	return []string{long + "=" + val}
}

type ran struct {
	ended
	files map[string]string
	raw   string // stdout as it is; out is without timings
}

// line runs a command line in a directory with its inputs, an old output and a neighbour.
func (c *cmdline) line(dir string, args []string) ran {
	fresh(dir, c.in, map[string][]byte{"out": []byte("old"), "neighbour": []byte("n")})
	_ = os.Mkdir(filepath.Join(dir, "dir"), 0o755)
	vlib.MustWrite(filepath.Join(dir, "dir", "x"), []byte("in it"))
	j := &job{args: args}
	e := exeRaw("plain", c.cmd, 25*time.Second, nil, j.argv(dir)...)
	x := ran{e, vlib.Dir(dir), e.out}
	x.out = timings.ReplaceAllString(x.out, "")
	return x
}

var timings = regexp.MustCompile(`(?m)^.*(time|took|hit|miss|[Pp]ass).*$\n?`)

func text(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s: %d bytes %q\n", k, len(m[k]), m[k][:min(len(m[k]), 40)])
	}
	return b.String()
}

func sameFiles(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// untouched is the directory as it was before.
func (c *cmdline) untouched(x ran) string {
	want := map[string]string{"out": "old", "neighbour": "n", "dir": ""}
	for k, v := range c.in {
		want[k] = string(v)
	}
	got := x.files
	if !sameFiles(got, want) {
		return "changes the directory: " + text(got)
	}
	return ""
}

func (c *cmdline) refused(x ran) string {
	switch {
	case x.hung || x.code < 0:
		return x.String()
	case x.code == 0:
		return "accepted"
	case strings.Contains(x.errout, "goroutine ") || strings.Contains(x.errout, "panic: "):
		return "crashes: " + first(x.errout)
	case strings.TrimSpace(x.errout) == "":
		return "says nothing"
	case x.raw != "":
		return "prints something: " + first(x.raw)
	}
	return c.untouched(x)
}

// failed: something that is not an error of the command line itself.
func (c *cmdline) failed(x ran) string {
	switch {
	case x.hung || x.code < 0:
		return x.String()
	case x.code == 0:
		return "reports success"
	}
	return ""
}

func differs(x, ref ran) string {
	switch {
	case x.hung || x.code != 0:
		return x.String() + ": " + first(lastLine(x.errout))
	case !sameFiles(x.files, ref.files):
		return "leaves something else: " + text(x.files) + "not " + text(ref.files)
	case x.out != ref.out:
		return fmt.Sprintf("prints something else: %q not %q", first(x.out), first(ref.out))
	}
	return ""
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	return s[strings.LastIndexByte(s, '\n')+1:]
}

// lines of entityfind come in the order of the workers
func canon(cmd string, x ran) ran {
	if cmd == "entityfind" {
		l := strings.Split(x.out, "\n")
		sort.Strings(l)
		x.out = strings.Join(l, "\n")
	}
	return x
}

func permutations(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// isFile says that a value names a file: a bad one is no error of the command line.
func (o copt) isFile() bool { return strings.HasPrefix(o.val, "%") }

func init() {
	vlib.Register("C29.lines", func(r *vlib.R) {
		dir := filepath.Join(r.Scratch, "d")
		f := osmref.File{corpus.Header("h")}
		f = append(f, corpus.Multi(3, false)...)
		var cs []cmdline
		get := func() bool {
			if cs != nil {
				return true
			}
			s, err := prepare(dir, "multi3", f)
			if err != nil {
				r.Fail("prepare", err.Error(), "", nil)
				return false
			}
			cs = cmdlines(s)
			return true
		}
		if !get() {
			return
		}
		for ci := range cs {
			c := &cs[ci]
			refs := map[string]ran{}
			// ref is what the options of a set with these values mean, in the plainest spelling
			ref := func(set uint, vals map[int]string) ran {
				var a []string
				for i, o := range c.opts {
					v := o.val
					if x, ok := vals[i]; ok {
						v = x
					}
					switch {
					case set>>i&1 == 1:
						a = append(a, o.spell(2, v)...)
					case o.def != "":
						a = append(a, o.spell(2, o.def)...)
					case o.long == "workers":
						a = append(a, "--workers", "1")
					case o.long == "refresh":
						a = append(a, "--refresh", "0")
					}
				}
				k := strings.Join(a, "\x00")
				if x, ok := refs[k]; ok {
					return x
				}
				x := canon(c.cmd, c.line(dir, a))
				refs[k] = x
				return x
			}
			all := uint(1)<<len(c.opts) - 1
			noUI := func(a []string, set uint) []string { // without a terminal the display cannot be on
				for i, o := range c.opts {
					if o.long == "refresh" && set>>i&1 == 0 {
						return append(append([]string{}, a...), "-r0")
					}
				}
				return a
			}
			try := func(kind string, args []string, judge func(x ran) string) bool {
				d := fmt.Sprintf("%s: %s %q", kind, c.cmd, args)
				if !mine(r, d) {
					return true
				}
				if r.Stop() || r.Late("C29.lines") {
					return false
				}
				r.Begin(d)
				if bad := judge(canon(c.cmd, c.line(dir, args))); bad != "" {
					r.Fail(d, bad, "", nil)
					return true
				}
				r.Nontrivial(d)
				return true
			}
			likeRef := func(set uint, vals map[int]string) func(x ran) string {
				return func(x ran) string {
					y := ref(set, vals)
					if y.code != 0 || y.hung {
						return "the plain spelling: " + y.String() + " " + lastLine(y.errout)
					}
					return differs(x, y)
				}
			}
			valid := func(set uint) bool {
				sub := 0
				for i, o := range c.opts {
					if o.req && set>>i&1 == 0 {
						return false
					}
					if strings.HasPrefix(o.long, "sub-index") && set>>i&1 == 1 {
						sub++
					}
				}
				return sub != 1
			}
			args := func(set uint, form func(i int) int, order []int) []string {
				var a []string
				for _, i := range order {
					if set>>i&1 == 1 {
						a = append(a, c.opts[i].spell(form(i), c.opts[i].val)...)
					}
				}
				return a
			}
			var straight []int
			for i := range c.opts {
				straight = append(straight, i)
			}
			// the order of the options and their spelling
			n := 0
			permutations(len(c.opts), func(p []int) {
				n++
				if len(c.opts) > 5 && !r.Thorough() && n%37 != 1 && n > 130 {
					return
				}
				m := n
				try("order", args(all, func(i int) int { return (i + m/3) % 4 }, p), likeRef(all, nil))
			})
			for i := range c.opts {
				for f1 := 0; f1 < 4; f1++ {
					for f0 := 0; f0 < 4; f0++ {
						try("spelling", args(all, func(k int) int {
							if k == i {
								return f1
							}
							return f0
						}, straight), likeRef(all, nil))
					}
				}
			}
			// every set of options
			for set := uint(0); set <= all; set++ {
				for f0 := 0; f0 < 4; f0++ {
					a := noUI(args(set, func(i int) int { return f0 + i*f0 }, straight), set)
					if valid(set) {
						if !try("set", a, likeRef(set, nil)) {
							return
						}
					} else {
						if !try("set", a, c.refused) {
							return
						}
					}
				}
			}
			// values
			for i, o := range c.opts {
				if o.flag {
					for f0 := 1; f0 < 4; f0 += 2 { // a flag takes no value
						a := args(all&^(1<<i), func(k int) int { return f0 }, straight)
						try("value", append(a, "--"+o.long+"=x"), c.refused)
					}
					continue
				}
				for fm := 0; fm < 4; fm++ {
					for _, v := range o.good {
						a := append(args(all&^(1<<i), func(k int) int { return 0 }, straight), o.spell(fm, v)...)
						want := o.good[0]
						try("value", a, likeRef(all, map[int]string{i: want}))
					}
					for _, v := range slices.Sorted(maps.Keys(o.same)) {
						a := append(args(all&^(1<<i), func(k int) int { return 0 }, straight), o.spell(fm, v)...)
						try("extreme", a, likeRef(all, map[int]string{i: o.same[v]}))
					}
					for _, v := range o.bad {
						form := fm
						if o.short == "" && form < 2 {
							continue
						}
						if v == "" && form == 1 {
							continue // just the short option: takes what follows
						}
						a := append(args(all&^(1<<i), func(k int) int { return 0 }, straight), o.spell(form, v)...)
						if o.isFile() {
							try("value", a, c.failed)
						} else {
							try("value", a, c.refused)
						}
					}
					// an option at the end without a value
				}
				for _, s := range []string{"-" + o.short, "--" + o.long} {
					if s == "-" {
						continue
					}
					try("value", append(args(all&^(1<<i), func(k int) int { return 0 }, straight), s), c.refused)
				}
			}
			// what does not belong there, and help, at every place between options
			var parts [][]string
			for _, i := range straight {
				parts = append(parts, c.opts[i].spell(i%4, c.opts[i].val))
			}
			for at := 0; at <= len(parts); at++ {
				put := func(x ...string) []string {
					var a []string
					for i, p := range parts {
						if i == at {
							a = append(a, x...)
						}
						a = append(a, p...)
					}
					if at == len(parts) {
						a = append(a, x...)
					}
					return a
				}
				for _, x := range []string{"--nope", "--nope=1", "-Z", "positional", "%/in", "-", "0"} {
					try("stray", put(x), c.refused)
				}
				try("stray", append(put("--"), "more"), c.refused)
				for _, h := range []string{"-h", "--help"} {
					try("help", put(h), c.helped)
				}
			}
			// what every command has
			base := args(all, func(i int) int { return i % 4 }, straight)
			plus := func(x ...string) []string { return append(append([]string{}, base...), x...) }
			for _, n := range []string{"1", "2", "64"} {
				try("system", plus("--max-threads", n), likeRef(all, nil))
				try("system", plus("--max-threads="+n), likeRef(all, nil))
			}
			for _, n := range []string{"", "x", "1.5", "99999999999999999999"} {
				try("system", plus("--max-threads="+n), c.refused)
				try("system", plus("--mem-profile-rate="+n), c.refused)
			}
			try("system", plus("--mem-profile-rate=512"), c.refused)
			// a line that is refused leaves no profile either
			for _, p := range [][]string{{"--mem-profile", "%/prof"}, {"--cpu-profile=%/prof"}, {"--mem-profile=%/neighbour", "--mem-profile-rate", "512"}, {"--cpu-profile", "%/neighbour"}} {
				for set := uint(0); set < all; set++ {
					if a := noUI(args(set, func(i int) int { return i % 4 }, straight), set); !valid(set) {
						try("profile", append(append([]string{}, p...), a...), c.refused)
					}
				}
				for i, o := range c.opts {
					if len(o.bad) == 0 || o.isFile() {
						continue
					}
					a := append(args(all&^(1<<i), func(k int) int { return 2 }, straight), o.spell(3, o.bad[len(o.bad)-1])...)
					try("profile", append(a, p...), c.refused)
				}
				try("profile", plus(append(p, "--nope")...), c.refused)
				try("profile", plus(append(p, "more")...), c.refused)
				try("profile", plus(append(p, "--help")...), c.helped)
			}
			for _, p := range [][]string{{"--mem-profile", "%/prof"}, {"--mem-profile=%/prof", "--mem-profile-rate=512"}, {"--cpu-profile", "%/prof"}} {
				try("system", plus(p...), func(x ran) string {
					if x.files["prof"] == "" {
						return "no profile"
					}
					delete(x.files, "prof")
					return likeRef(all, nil)(x)
				})
			}
			for _, h := range []string{"-h", "--help"} {
				try("help", []string{h}, c.helped)
				try("help", append(parts[0], h), c.helped)
			}
			try("stray", []string{"positional"}, c.refused)
			try("stray", nil, c.refused)
		}
	})
}

func (c *cmdline) helped(x ran) string {
	switch {
	case x.hung || x.code != 0:
		return x.String()
	}
	for _, o := range c.opts {
		if !strings.Contains(x.raw, "--"+o.long) {
			return "the help does not tell of --" + o.long
		}
	}
	return c.untouched(x)
}
