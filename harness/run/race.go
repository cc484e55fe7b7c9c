package run

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"zz.local/zz/zzs"
)

var (
	raceLog  *os.File
	raceAt   int64
	raceSeen int
)

// races returns the data races reported since it was last called, each as the
// two places that touch the same memory.
func races(scratch string) []string {
	if n := zzs.RaceErrors(); n == raceSeen {
		return nil
	} else {
		raceSeen = n
	}
	if raceLog == nil {
		ns, _ := filepath.Glob(filepath.Join(scratch, fmt.Sprintf("race.%d", os.Getpid())))
		if len(ns) != 1 {
			panic("run: no log of the race detector")
		}
		f, err := os.Open(ns[0])
		if err != nil {
			panic(err)
		}
		raceLog = f
	}
	st, err := raceLog.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, st.Size()-raceAt)
	n, _ := raceLog.ReadAt(b, raceAt)
	raceAt += int64(n)
	if f := os.Getenv("ZZ_RACES"); f != "" {
		fh, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		_, _ = fh.Write(b[:n])
		_ = fh.Close()
	}
	var out []string
	for _, rep := range strings.Split(string(b[:n]), "WARNING: DATA RACE\n")[1:] {
		if s := oneRace(rep); s != "" {
			out = append(out, s)
		}
	}
	return out
}

var shim = regexp.MustCompile(`^zz\.local/zz/(vatomic|vsync|vcontext)\.|^zz\.local/zz/zzs\.Race(Read|Write)\(`)

// oneRace reads a report; "" if it is about the harness.
func oneRace(rep string) string {
	var at []string
	unknown := 0
	sections := strings.Split(rep, "\n\n")
	for _, sec := range sections {
		lines := strings.Split(strings.Trim(sec, "\n="), "\n")
		head := strings.ToLower(lines[0])
		if !strings.Contains(head, " at 0x") || !strings.Contains(head, " by ") {
			continue
		}
		what := "reads"
		if strings.Contains(head, "write") {
			what = "writes"
		}
		place := ""
		for i := 1; i+1 < len(lines) && place == ""; i += 2 {
			fn := strings.TrimSpace(lines[i])
			file := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(file, " +0x"); k >= 0 {
				file = file[:k]
			}
			switch {
			case strings.HasPrefix(file, runtime.GOROOT()+"/"), strings.HasPrefix(file, "<autogenerated>"):
			case shim.MatchString(fn): // does it on behalf of its caller
			case strings.HasPrefix(fn, "zz.local/"), strings.Contains(fn, "/internal/zzv/") && !strings.Contains(fn, "/internal/zzv/cmds/"):
				return ""
			default:
				fn = strings.TrimSuffix(strings.TrimPrefix(fn, "github.com/squizzling/osmindex/"), "()")
				place = fmt.Sprintf("%s %s (%s)", fn, what, filepath.Base(file))
			}
		}
		if place == "" && len(lines) >= 2 && strings.HasPrefix(strings.TrimSpace(lines[1]), "runtime.race") {
			unknown++ // a wait, told to the detector by the shim
			place = "a wait"
		}
		if place == "" {
			return "" // nothing is known of one of them
		}
		at = append(at, place)
	}
	if unknown == len(at) {
		return ""
	}
	sort.Strings(at)
	return strings.Join(at, " <> ")
}
