#!/usr/bin/env python3
"""run.py MUTANTS RESULTS [JOBS]: runs the checks that belong to the mutated file, cheapest first, until one alarms.
The mutants come from mutate (main.go); the results say which check found which, or that none did."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAP = [
    ("internal/morton", "C14 C04"), ("internal/iunsafe", "C20 C08 C07 C27"), ("internal/pb/", "C11 C12 C28 C32"),
    ("internal/t/string", "C13 C12 C09"), ("internal/t/blob", "C10 C17 C12 C28 C32"), ("internal/t/", "C09 C08 C12 C10 C07 C28 C02 C32"),
    ("internal/nodeindex", "C20 C15 C08 C04 C05 C27 C18 C26 C31"), ("internal/wayindex", "C20 C15 C07 C06 C18 C26 C28 C31"),
    ("internal/pbf/", "C01 C24 C17 C02 C03 C31 C30"), ("internal/pool", "C21 C02 C31 C28"), ("internal/tracker", "C22 C30 C31"),
    ("internal/ui/args", "C29"), ("internal/ui", "C25 C30 C22"), ("internal/iio", "C16 C17 C23 C27 C03"), ("internal/icontext", "C03 C30"),
    ("internal/imath", "C04 C06 C28"), ("internal/system", "C29 C19"), ("internal/args", "C29"), ("args.go", "C29 C20"),
    ("widget", "C30 C25"), ("/state/", "C22 C30 C31 C18"),
    ("cmd/blockcount", "C18 C17"), ("cmd/entitycount", "C18 C17"), ("cmd/entityfind", "C19 C17"),
    ("cmd/decompress", "C10 C16 C23 C28 C03 C30"), ("cmd/nodeindex", "C04 C15 C27 C28 C16 C23 C02 C03 C30"),
    ("cmd/wayindex", "C06 C07 C28 C16 C23 C02 C03 C30"), ("cmd/relindex", "C07 C16 C23 C28 C05 C02 C03 C30"),
    ("cmd/rewritenodes", "C08 C05 C23 C16 C18 C28 C02 C03 C30"), ("cmd/tagfilter", "C09 C13 C16 C23 C02 C28 C03 C30"),
    ("cmd/dump", "C20 C29 C17"),
]


def checks(f):
    for k, v in MAP:
        if k in f:
            return v.split()
    return "C08 C09 C10 C07 C12 C28".split()


def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""


def main():
    muts = [json.loads(l) for l in open(sys.argv[1])]
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)["What"] for l in open(sys.argv[2])}
    res = open(sys.argv[2], "a")
    top = tempfile.mkdtemp(prefix="mut.")
    dirs = Queue()
    for i in range(jobs):
        d = "%s/%d" % (top, i)
        shutil.copytree("/repo", d, symlinks=True)
        dirs.put(d)
    env = dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1", ZZ_FIRST="1", ZZ_SHARDS=str(max(2, 8 // jobs)))

    def one(m):
        if m["What"] in done:
            return
        d = dirs.get()
        try:
            f = d + "/" + m["File"]
            src = open("/repo/" + m["File"], "rb").read()
            a, b = m["From"], m["To"]
            text = m["Text"]
            if text == "\0swap":
                x = src[a:b].decode()
                i = x.index("\n")
                while x[:i].count("(") != x[:i].count(")") or x[:i].count("{") != x[:i].count("}"):
                    i = x.index("\n", i + 1)
                text = x[i + 1:].strip() + "\n" + x[:i]
            open(f, "wb").write(src[:a] + text.encode() + src[b:])
            r, rcs = "survived", []
            rc, out = run(["go", "build", "./..."], d, 200)
            if rc:
                r = "build"
            else:
                rc, out = run(["go", "test", "./..."], d, 60)
                if rc:
                    r = "tests"
                else:
                    for c in checks(m["File"]):
                        rc, out = run([VERIF + "/bin/check", c], VERIF, 900, dict(env, ZZ_REPO=d))
                        rcs.append("%s=%d" % (c, rc))
                        if rc == 1:
                            r = c
                            break
            open(f, "wb").write(src)
            m.update(result=r, rcs=rcs)
            res.write(json.dumps(m) + "\n")
            res.flush()
        finally:
            dirs.put(d)

    with ThreadPoolExecutor(jobs) as ex:
        for _ in ex.map(one, muts):
            pass
    shutil.rmtree(top)


main()
