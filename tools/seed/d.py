import re
from mk import mk

RACEPY = '''
import subprocess
def race(name):
    "builds name with the race detector and uses it from now on"
    global BIN
    import lib
    d = P("racebin")
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["go", "build", "-race", "-o", d + "/" + name, "./cmd/" + name])
    globals()["BIN"] = lib.BIN = d
RACE = dict(os.environ, GORACE="exitcode=66 halt_on_error=0 history_size=7")
'''

src = open("/tmp/sd/c.py").read()
addgo = re.search(r'mk\("c01-add-inside".*?go=\'\'\'(.*?)\'\'\'\)', src, re.S).group(1)
mk("c31-add-inside", "C31", {"internal/pbf/process.go":[
("	wgWorker.Add(workers)\n	for i := 0; i < workers; i++ {\n		go func() {\n			workStep(ctx, chInputBlobs, chReorderBlobs)\n","	for i := 0; i < workers; i++ {\n		go func() {\n			wgWorker.Add(1)\n			workStep(ctx, chInputBlobs, chReorderBlobs)\n"),
]},
"A run that is over before a worker has started, for one that is cancelled at once.",
"Nothing puts a worker's Add before the Wait of the pipeline: the pipeline does not wait for workers that start late.",
pkg="internal/pbf", flags="-race", go=addgo)

mk("c31-kept-plain", "C31", {"cmd/tagfilter/tagfilterer/state/state_worker.go":[
("	atomic.AddUint64(&w.kept, amount)","	w.kept += amount // only the worker itself adds"),
]},
"The display looks at the counter of a worker while the worker adds to it.",
"The number of kept tags is written without synchronisation while the display reads it.",
pkg="cmd/tagfilter/tagfilterer/state", flags="-race", go='''
package state

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	w := &Worker{}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := uint64(1); i <= 1000; i++ {
			w.SetStateDecoding(i)
			w.AddKept(1)
			w.AddDropped(2)
			w.SetCurrentState(WorkerWriting)
		}
	}()
	for i := 0; i < 1000; i++ {
		if w.Kept() > 1000 || w.Dropped() > 2000 || w.CurrentBlock() > 1000 || w.CurrentState() > WorkerWriting {
			t.Error("nonsense")
		}
	}
	wg.Wait()
	if w.Kept() != 1000 || w.Dropped() != 2000 {
		t.Error("lost")
	}
}
''')

mk("c31-version-plain", "C31", {"internal/tracker/worker_tracker.go":[
("	wt.workers = append(wt.workers, sw)\n	wt.mu.Unlock()\n	atomic.AddUint64(&wt.version, 1)\n","	wt.workers = append(wt.workers, sw)\n	wt.version++\n	wt.mu.Unlock()\n"),
]},
"The display asks for the version while a worker is added.",
"The version is written under the mutex, but the display reads it without: the read and the write are not ordered.",
pkg="internal/tracker", flags="-race", go='''
package tracker

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	wt := &WorkerTracker{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				x := new(int)
				wt.TrackWorker(x)
				wt.UntrackWorker(x)
			}
		}()
	}
	last := uint64(0)
	for i := 0; i < 1000; i++ {
		v := wt.Version()
		if v < last {
			t.Error("version went back")
		}
		last = v
		if n := len(wt.WorkerStates()); n > 4 {
			t.Error("too many workers", n)
		}
	}
	wg.Wait()
}
''')

mk("c31-rlock", "C31", {"internal/tracker/worker_tracker.go":[
("func (wt *WorkerTracker) UntrackWorker(sw interface{}) {\n	wt.mu.Lock()\n	for idx, swOther := range wt.workers {\n		if swOther == sw {\n","func (wt *WorkerTracker) UntrackWorker(sw interface{}) {\n	wt.mu.Lock()\n	if n := len(wt.workers); n > 0 && wt.workers[n-1] == sw {\n		// the last one needs no moving\n		wt.mu.Unlock()\n		wt.workers = wt.workers[:n-1]\n		atomic.AddUint64(&wt.version, 1)\n		return\n	}\n	for idx, swOther := range wt.workers {\n		if swOther == sw {\n"),
]},
"The worker that was added last ends while another is added, ends or is looked at.",
"The list of workers is shortened without the lock.",
pkg="internal/tracker", flags="-race", go='''
package tracker

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		wt := &WorkerTracker{}
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := new(int)
				wt.TrackWorker(x)
				wt.WorkerStates()
				wt.UntrackWorker(x)
			}()
		}
		wg.Wait()
		if n := len(wt.WorkerStates()); n != 0 {
			t.Fatal("workers left", n)
		}
	}
}
''')

mk("c31-last-hit", "C31", {"internal/nodeindex/nodesubindex.go":[
("	locations []int64\n	Top       uint64\n","	locations []int64\n	Top       uint64\n	last      int // where something was found last\n"),
("	lowerPoint, upperPoint := 0, len(si.element)\n","	if hint == 0 { // nothing known yet: neighbouring blocks have neighbouring nodes\n		hint = si.last\n	}\n	lowerPoint, upperPoint := 0, len(si.element)\n"),
("	atomic.AddUint64(&si.parent.HitDefault, 1)\n	loc := ","	atomic.AddUint64(&si.parent.HitDefault, 1)\n	si.last = lowerPoint\n	loc := "),
]},
"Two workers of rewritenodes look up nodes.",
"All workers read and write one hint without synchronisation.",
py=RACEPY+'''
race("rewritenodes")
nodes = [(i * 1000 + 1, i, i, {}) for i in range(200)]
pbf(P("n.pbf"), block(N(*nodes)))
cmd0 = BIN
import lib
lib.BIN = sys.argv[1]
ok("nodeindex", "-i", P("n.pbf"), "-o", P("n.idx"), "-r", "0")
lib.BIN = cmd0
pbf(P("in.pbf"), *[block(W(*[(b * 100 + w + 1, {}, [((b * 7 + w * 13 + r * 31) % 200) * 1000 + 1 for r in range(20)]) for w in range(20)])) for b in range(100)])
p = subprocess.run([BIN + "/rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out"), "-r", "0", "-w", "8"], env=RACE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
if b"DATA RACE" in p.stderr or p.returncode:
    fail("data race: " + p.stderr[:2000].decode())
''')

mk("c31-lazy-tags", "C31", {"cmd/tagfilter/tagfilterer/tagfilterer_worker.go":[
("func keepTag(s string) bool {\n	for _, f := range deleteTags {\n		if f == s {\n			return false\n		}\n	}\n","var deleteTagSet map[string]struct{}\n\nfunc keepTag(s string) bool {\n	if deleteTagSet == nil {\n		deleteTagSet = make(map[string]struct{}, len(deleteTags))\n		for _, f := range deleteTags {\n			deleteTagSet[f] = struct{}{}\n		}\n	}\n	if _, found := deleteTagSet[s]; found {\n		return false\n	}\n"),
]},
"Two workers come to their first tag at the same time.",
"The set of tags is filled by one worker while another already uses it: that one keeps tags it should drop, or the command dies of a concurrent map access.",
py=RACEPY+'''
race("tagfilter")
pbf(P("in.pbf"), *[block(N(*[(b * 100 + i + 1, i, i, {"note": "x", "name": "y"}) for i in range(50)])) for b in range(16)])
for k in range(10):
    p = subprocess.run([BIN + "/tagfilter", "-i", P("in.pbf"), "-o", P("out"), "-r", "0", "-w", "8"], env=RACE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b"DATA RACE" in p.stderr or p.returncode:
        fail("data race: " + p.stderr[:2000].decode())
''')

mk("c31-peek", "C31", {"cmd/entitycount/entitycount.go":[
("	for old := atomic.LoadUint64(max); new > old && !atomic.CompareAndSwapUint64(max, old, new); old = atomic.LoadUint64(max) {\n		/* do nothing */\n	}","	if new <= *max { // mostly nothing to do\n		return\n	}\n	for old := atomic.LoadUint64(max); new > old && !atomic.CompareAndSwapUint64(max, old, new); old = atomic.LoadUint64(max) {\n		/* do nothing */\n	}"),
]},
"Two workers end at the same time.",
"The maximum is read without synchronisation while another worker sets it.",
py=RACEPY+'''
race("entitycount")
pbf(P("in.pbf"), *[block(N(*[(b * 100 + i + 1, i, i, {}) for i in range(50)]), ) for b in range(16)])
for k in range(40):
    p = subprocess.run([BIN + "/entitycount", "-i", P("in.pbf"), "-w", "8"], env=RACE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b"DATA RACE" in p.stderr or p.returncode:
        fail("data race: " + p.stderr[:2000].decode())
''')

mk("c31-widgets-direct", "C31", {"internal/ui/ui.go":[
("	u.app.PostFunc(func() {\n		for _, w := range u.Widgets() {\n			u.RemoveWidget(w)\n		}\n","	for _, w := range u.Widgets() { // what is shown now is over\n		u.RemoveWidget(w)\n	}\n	u.app.PostFunc(func() {\n"),
]},
"A second pass begins while the display draws, or handles an event.",
"The widgets are removed on the command's thread while the display's thread uses them.",
py=RACEPY+'''
race("rewritenodes")
import lib
race_bin = BIN
n = 1100000
pbf(P("n.pbf"), *[block(N(*[(i, i, i) for i in range(b, min(b + 8000, n))])) for b in range(1, n, 8000)])
lib.BIN = sys.argv[1]
ok("nodeindex", "-i", P("n.pbf"), "-o", P("n.idx"), "-r", "0")
lib.BIN = race_bin
pbf(P("in.pbf"), *[block(W(*[(b * 100 + i + 1, {}, [b * 20000 + i * 300 + 1]) for i in range(50)])) for b in range(40)])
os.environ["GORACE"] = "exitcode=66 history_size=7 log_path=" + P("race")
for k in range(5):
    code, out, same = tty("rewritenodes", "-i", P("in.pbf"), "-x", P("n.idx"), "-o", P("out"), "-w", "2", "-m", "1", "-r", "50us")
    r = [open(P(f)).read() for f in os.listdir(P(".")) if f.startswith("race.")]
    if code or r:
        fail("exit code %s, data race: %s" % (code, "".join(r)[:2000]))
''')
