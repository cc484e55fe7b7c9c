// Package vlib is what every check harness shares: sharding, counters,
// violations, the progress record that attributes a fatal crash to a case.
package vlib

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

type Violation struct {
	Property string `json:"property"`
	Key      string `json:"key"` // identifies the failing input, site or history
	What     string `json:"what"`
	Case     string `json:"case"`
	Detail   string `json:"detail"`
	Replay   any    `json:"replay,omitempty"`
}

type Result struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Schedules   int            `json:"schedules"`
	Steps       int            `json:"steps"`
	Outcomes    int            `json:"outcomes"`
	Divergences int            `json:"divergences"`
	Exhaustive  bool           `json:"exhaustive"`
	Capped      []string       `json:"capped,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	Extra       map[string]int `json:"extra,omitempty"`
	Violations  []Violation    `json:"violations,omitempty"`
	Done        bool           `json:"done"`
}

type R struct {
	Prop     string
	Tier     string
	Seed     int64
	Shard    int
	Shards   int
	Scratch  string
	Replay   string // restricts the run to the case with this description
	Res      Result
	deadline time.Time
	outPath  string
	prog     *os.File
	seen     map[uint64]struct{}
	outc     map[uint64]struct{}
	counter  int
	cur      string
	sampleEv int
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func Open() *R {
	r := &R{
		Prop: env("ZZ_PROP", ""), Tier: env("ZZ_TIER", "quick"),
		Scratch: env("ZZ_SCRATCH", os.TempDir()), outPath: env("ZZ_OUT", ""),
		Replay: env("ZZ_REPLAY", ""),
		seen:   map[uint64]struct{}{}, outc: map[uint64]struct{}{},
	}
	r.Shard, _ = strconv.Atoi(env("ZZ_SHARD", "0"))
	r.Shards, _ = strconv.Atoi(env("ZZ_SHARDS", "1"))
	r.Seed, _ = strconv.ParseInt(env("ZZ_SEED", "1"), 10, 64)
	secs, _ := strconv.ParseFloat(env("ZZ_BUDGET", "600"), 64)
	r.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	r.Res.Exhaustive = true
	r.Res.Extra = map[string]int{}
	if r.outPath != "" {
		r.prog, _ = os.Create(r.outPath + ".progress")
	}
	_ = os.MkdirAll(r.Scratch, 0o755)
	return r
}

func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q on the quick tier and t on the thorough one.
func (r *R) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Late reports that the time budget is used up; the run then is not exhaustive.
func (r *R) Late(what string) bool {
	if time.Now().After(r.deadline) {
		r.Cap("time budget reached in " + what)
		return true
	}
	return false
}

func (r *R) Cap(s string) {
	r.Res.Exhaustive = false
	for _, c := range r.Res.Capped {
		if c == s {
			return
		}
	}
	r.Res.Capped = append(r.Res.Capped, s)
}

// Mine says whether this shard runs the next unit of work.
func (r *R) Mine() bool {
	r.counter++
	return (r.counter-1)%r.Shards == r.Shard
}

// Case begins the next unit of work if this shard, or the replay, is to run it.
func (r *R) Case(desc string) bool {
	if r.Replay != "" {
		if r.Replay != desc {
			return false
		}
	} else if !r.Mine() {
		return false
	}
	if r.Stop() || r.Late(r.Prop) {
		return false
	}
	r.Begin(desc)
	return true
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Begin records that a case starts; if the process dies, this is the case it died in.
func (r *R) Begin(desc string) {
	r.cur = desc
	r.Res.Evaluations++
	if r.prog != nil {
		b := make([]byte, 4, 4+len(desc))
		if len(desc) > 60000 {
			desc = desc[:60000]
		}
		b = append(b, desc...)
		binary.LittleEndian.PutUint32(b, uint32(len(desc)))
		_, _ = r.prog.WriteAt(b, 0)
	}
}

// Nontrivial counts a distinct case that exercised what the property is about.
func (r *R) Nontrivial(key string) {
	r.seen[Hash(key)] = struct{}{}
	if len(r.Res.Samples) < 3 || (len(r.Res.Samples) < 6 && len(r.seen)%997 == 0) {
		s := r.cur
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.Res.Samples = append(r.Res.Samples, s)
	}
}

// Outcome counts distinct observed outcomes.
func (r *R) Outcome(s string) { r.outc[Hash(s)] = struct{}{} }

func (r *R) Count(k string, n int) { r.Res.Extra[k] += n }

// Fail records a violation.  Key identifies the failing case for the known-findings file.
func (r *R) Fail(key, what, detail string, replay any) {
	if len(r.Res.Violations) >= 20 {
		return
	}
	if len(detail) > 6000 {
		detail = detail[:6000] + "..."
	}
	r.Res.Violations = append(r.Res.Violations, Violation{r.Prop, key, what, r.cur, detail, replay})
	r.flush()
}

func (r *R) Failf(key, what, format string, a ...any) {
	r.Fail(key, what, fmt.Sprintf(format, a...), nil)
}

// Stop says whether enough violations were found to end early.
func (r *R) Stop() bool { return len(r.Res.Violations) >= 3 }

func (r *R) flush() {
	if r.outPath == "" {
		return
	}
	r.Res.Distinct = len(r.seen)
	r.Res.Outcomes = len(r.outc)
	b, _ := json.Marshal(&r.Res)
	_ = os.WriteFile(r.outPath+".tmp", b, 0o644)
	_ = os.Rename(r.outPath+".tmp", r.outPath)
}

// Close writes the result.
func (r *R) Close() {
	r.Res.Done = true
	r.flush()
	if r.outPath != "" {
		ks := make([]uint64, 0, len(r.seen))
		for k := range r.seen {
			ks = append(ks, k)
		}
		b := make([]byte, 8*len(ks))
		for i, k := range ks {
			binary.LittleEndian.PutUint64(b[8*i:], k)
		}
		_ = os.WriteFile(r.outPath+".seen", b, 0o644)
		if r.prog != nil {
			_ = r.prog.Close()
			_ = os.Remove(r.outPath + ".progress")
		}
	} else {
		r.Res.Distinct = len(r.seen)
		r.Res.Outcomes = len(r.outc)
		b, _ := json.MarshalIndent(&r.Res, "", " ")
		fmt.Println(string(b))
	}
}

// Guard runs f and turns a panic into a string.
func Guard(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprint(x)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// MustWrite writes a scratch file.
func MustWrite(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// Dir lists the files below d with their contents.
func Dir(d string) map[string]string {
	m := map[string]string{}
	es, _ := os.ReadDir(d)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(d, e.Name()))
		m[e.Name()] = string(b)
	}
	return m
}

func Names(m map[string]string) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

var checks = map[string]func(r *R){}

// Register adds the body of a check (or of one part of it).
func Register(prop string, f func(r *R)) { checks[prop] = f }

// Main runs the check named by ZZ_PROP.
func Main() int {
	r := Open()
	f := checks[r.Prop]
	if f == nil {
		fmt.Fprintf(os.Stderr, "no check %q here\n", r.Prop)
		return 3
	}
	f(r)
	r.Close()
	return 0
}
