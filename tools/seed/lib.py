# A small independent reader and writer for the formats osmindex uses.
import os, struct, subprocess, sys, tempfile, zlib

BIN = sys.argv[1] if len(sys.argv) > 1 else None


def vi(n):
    n &= (1 << 64) - 1
    o = bytearray()
    while n > 127:
        o.append(n & 127 | 128)
        n >>= 7
    o.append(n)
    return bytes(o)


def zz(n):
    return n * 2 if n >= 0 else -n * 2 - 1


def F(num, v):
    return vi(num << 3) + vi(v)


def B(num, b):
    return vi(num << 3 | 2) + vi(len(b)) + b


def packed(l):
    return b"".join(vi(x) for x in l)


def delta(l):
    o, last = [], 0
    for x in l:
        o.append(vi(zz(x - last)))
        last = x
    return b"".join(o)


class Strings:
    def __init__(self):
        self.l, self.d = [b""], {"": 0}

    def __call__(self, s):
        if s not in self.d:
            self.d[s] = len(self.l)
            self.l.append(s.encode())
        return self.d[s]

    def kv(self, tags):
        return [self(k) for k in tags], [self(v) for v in tags.values()]


def dense(st, nodes):  # (id, lat, lon, tags) with lat and lon in units of the granularity
    kv = []
    for n in nodes:
        for k, v in n[3].items():
            kv += [st(k), st(v)]
        kv.append(0)
    b = B(1, delta([n[0] for n in nodes])) + B(8, delta([n[1] for n in nodes])) + B(9, delta([n[2] for n in nodes]))
    if any(n[3] for n in nodes):
        b += B(10, packed(kv))
    return B(2, b)


def way(st, w):  # (id, tags, refs)
    k, v = st.kv(w[1])
    b = F(1, w[0])
    if k:
        b += B(2, packed(k)) + B(3, packed(v))
    if w[2]:
        b += B(8, delta(w[2]))
    return B(3, b)


def rel(st, r):  # (id, tags, [(type, id, role)])
    k, v = st.kv(r[1])
    b = F(1, r[0])
    if k:
        b += B(2, packed(k)) + B(3, packed(v))
    if r[2]:
        b += B(8, packed([st(m[2]) for m in r[2]])) + B(9, delta([m[1] for m in r[2]])) + B(10, packed([m[0] for m in r[2]]))
    return B(4, b)


def block(*groups, gran=100, dategran=1000, latoff=0, lonoff=0):
    """Each group: dict with any of nodes, ways, rels."""
    st = Strings()
    gs = b""
    for g in groups:
        b = b""
        if g.get("nodes"):
            b += dense(st, g["nodes"])
        for w in g.get("ways", []):
            b += way(st, w)
        for r in g.get("rels", []):
            b += rel(st, r)
        gs += B(2, b)
    o = B(1, b"".join(B(1, s) for s in st.l)) + gs
    if gran != 100:
        o += F(17, gran)
    if dategran != 1000:
        o += F(18, dategran)
    if latoff:
        o += F(19, latoff)
    if lonoff:
        o += F(20, lonoff)
    return o


def N(*nodes):
    return {"nodes": [n if len(n) > 3 else (*n, {}) for n in nodes]}


def W(*ways):
    return {"ways": list(ways)}


def R(*rels):
    return {"rels": list(rels)}


HEADER = B(4, b"OsmSchema-V0.6") + B(4, b"DenseNodes")


def blob(typ, payload, z=True):
    d = F(2, len(payload)) + B(3, zlib.compress(payload)) if z else B(1, payload)
    h = B(1, typ.encode()) + F(3, len(d))
    return struct.pack(">I", len(h)) + h + d


def pbf(path, *blocks, z=True):
    with open(path, "wb") as f:
        f.write(blob("OSMHeader", HEADER, z))
        for b in blocks:
            f.write(blob("OSMData", b, z))
    return path


# reading

def rvi(b, i):
    v = s = 0
    while True:
        x = b[i]
        i += 1
        v |= (x & 127) << s
        s += 7
        if x < 128:
            return v, i


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def unzz(v):
    return s64(v >> 1 ^ -(v & 1))


def fields(b):
    i = 0
    while i < len(b):
        t, i = rvi(b, i)
        if t & 7 == 0:
            v, i = rvi(b, i)
        else:
            assert t & 7 == 2, t
            n, i = rvi(b, i)
            assert i + n <= len(b)
            v = b[i:i + n]
            i += n
        yield t >> 3, v


def unpack(b):
    o, i = [], 0
    while i < len(b):
        v, i = rvi(b, i)
        o.append(v)
    return o


def undelta(b):
    o, last = [], 0
    for v in unpack(b):
        last = s64(last + unzz(v))
        o.append(last)
    return o


def blobs(path):
    """-> [(type, payload, stored raw)]"""
    d, i, o = open(path, "rb").read(), 0, []
    while i < len(d):
        (n,) = struct.unpack(">I", d[i:i + 4])
        h = dict(fields(d[i + 4:i + 4 + n]))
        i += 4 + n
        body = d[i:i + h.get(3, 0)]
        assert len(body) == h.get(3, 0)
        i += len(body)
        f = dict(fields(body))
        o.append((h[1].decode(), f[1] if 1 in f else zlib.decompress(f[3]), 1 in f))
    return o


def parse(payload):
    r = dict(nodes=[], ways=[], rels=[], gran=100, dategran=1000, latoff=0, lonoff=0, strings=[])
    fs = list(fields(payload))
    for n, v in fs:
        if n == 1:
            r["strings"] = [s.decode() for _, s in fields(v)]
        elif n in (17, 18):
            r[{17: "gran", 18: "dategran"}[n]] = v
        elif n in (19, 20):
            r[{19: "latoff", 20: "lonoff"}[n]] = s64(v)
    S = r["strings"]
    for n, g in fs:
        if n != 2:
            continue
        for t, e in fields(g):
            f = dict(fields(e))
            if t == 2:
                kv, tags = unpack(f.get(10, b"")), []
                if kv:
                    cur, i = {}, 0
                    while i < len(kv):
                        if kv[i] == 0:
                            tags.append(cur)
                            cur, i = {}, i + 1
                        else:
                            cur[S[kv[i]]] = S[kv[i + 1]]
                            i += 2
                for i, (id, la, lo) in enumerate(zip(undelta(f[1]), undelta(f[8]), undelta(f[9]))):
                    r["nodes"].append((id, r["latoff"] + r["gran"] * la, r["lonoff"] + r["gran"] * lo, tags[i] if tags else {}))
            else:
                tags = {S[k]: S[v] for k, v in zip(unpack(f.get(2, b"")), unpack(f.get(3, b"")))}
                if t == 3:
                    r["ways"].append((s64(f[1]), tags, undelta(f.get(8, b""))))
                elif t == 4:
                    r["rels"].append((s64(f[1]), tags, list(zip(unpack(f.get(10, b"")), undelta(f.get(9, b"")), [S[x] for x in unpack(f.get(8, b""))]))))
    return r


def content(path):
    """Every entity of the file in order."""
    o = []
    for typ, p, _ in blobs(path):
        if typ == "OSMData":
            b = parse(p)
            o += b["nodes"] + b["ways"] + b["rels"]
    return o


def loc(lat, lon):
    """Packed location of nanodegrees."""
    def c(v):  # Go divides towards zero
        return int(abs(v) // 100) * (1 if v >= 0 else -1)
    lat, lon = c(lat) & 0xffffffff | 0x80000000, c(lon) & 0xffffffff
    v = 0
    for i in range(32):
        v |= (lon >> i & 1) << 2 * i | (lat >> i & 1) << 2 * i + 1
    return s64(v)


def nodeidx(path):
    d = open(path, "rb").read()
    w = struct.unpack("<%dq" % (len(d) // 8), d)
    assert w[0] == 1, "version"
    n, o = w[1], {}
    locs = w[2 + 2 * n:]
    for i in range(n):
        first, co = w[2 + 2 * i], w[3 + 2 * i] & (1 << 64) - 1
        for k in range(co & 0xffffff):
            if locs[(co >> 24) + k]:
                o[first + k] = locs[(co >> 24) + k]
    return o


def wayidx(path):
    d = open(path, "rb").read()
    n, sh = struct.unpack("<qq", d[:16])
    ids = struct.unpack("<%dQ" % n, d[16:16 + 8 * n])
    data, o = d[16 + 8 * n:], {}
    for e in ids:
        i, last, l = (e & (1 << 33) - 1) << sh, 0, []
        while True:
            v, i = rvi(data, i)
            if v == 0:
                break
            last = s64(last + unzz(v))
            l.append(last)
        o[e >> 33] = l
    return o


def relidx(path):
    d = open(path, "rb").read()
    w = struct.unpack("<%dq" % (len(d) // 8), d)
    o, i = [], 0
    while i < len(w):
        id, n = w[i], w[i + 1]
        i += 2
        ms = []
        for _ in range(n):
            k = w[i + 1]
            ms.append((w[i], list(w[i + 2:i + 2 + k])))
            i += 2 + k
        o.append((id, ms))
    return o


# running

UI = {"decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex"}


def cmd(name, *args, env=None, timeout=100, pre=None):
    a = [os.path.join(BIN, name)] + [str(x) for x in args]
    if name in UI:
        a += ["-r", "0"]
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, preexec_fn=pre)


def ok(name, *args, **kw):
    p = cmd(name, *args, **kw)
    if p.returncode != 0:
        fail("%s failed: %s" % (name, p.stderr.decode(errors="replace")[:300]))
    return p.stdout.decode()


def fail(msg):
    print("FAIL:", msg[:1000])
    sys.exit(1)


def check(what, got, want):
    if got != want:
        fail("%s: got %s, want %s" % (what, str(got)[:300], str(want)[:300]))


tmp = tempfile.TemporaryDirectory()


def P(name):
    return os.path.join(tmp.name, name)


def tty(name, *args, keys=(), timeout=60):
    """Runs a command with its display on, on a terminal of its own. keys: (seconds after the first output, bytes)...
    -> (exit code or None when it does not end, what the terminal got, terminal as it was)"""
    import fcntl, pty, select, struct, termios, time
    m, s = pty.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
    before = termios.tcgetattr(s)
    e = dict(os.environ, TERM="xterm")
    p = subprocess.Popen([os.path.join(BIN, name)] + [str(x) for x in args], stdin=s, stdout=s, stderr=s, env=e,
                         start_new_session=True, preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
    out, start, first, keys = b"", time.time(), None, list(keys)
    while p.poll() is None and time.time() - start < timeout:
        if select.select([m], [], [], 0.005)[0]:
            out += os.read(m, 65536)
            first = first or time.time()
        while keys and first and time.time() - first >= keys[0][0]:
            os.write(m, keys.pop(0)[1])
    code = p.poll()
    if code is None:
        p.kill()
        p.wait()
    while select.select([m], [], [], 0.1)[0]:
        out += os.read(m, 65536)
    after = termios.tcgetattr(s)
    os.close(m)
    os.close(s)
    return code, out, before == after
