"""C10: the bytes of messages and log entries (spec/Wire.tla)."""
import concurrent.futures as cf
import judge
import vlib
LEVEL = "bounded_exploration"
MC = """SPECIFICATION Spec
CONSTANT Deep = %d
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""
LOG = ("HEADER", "CREATE", "BLOCK", "INVAL", "RESIZE", "DIRINVAL")
VERSIONS = (10, 11, 12, 13, 15, 16, 20, 21, 26, 27, 32)
VERSIONED = {"settings": (11, 12, 13, 32), "header": (11, 12, 13, 14, 32), "done": (10, 15, 16, 17, 32), "checkpoints": (14, 15, 16, 20, 21, 26, 27, 28, 32)}
NUMS = [0, 1, 2, 63, 64, 127, 128, 255, 8191, 8192, 16383, 16384, 2097151, 2097152, 2**31 - 1, 2**31, 2**32, 2**35 - 1, 2**35, 2**42, 2**49 - 1,
        2**49, 2**56 - 1, 2**56, 2**62, 2**63 - 1]
# s: string, n: number, b: byte
SHAPE = {"u": "n", "i": "n", "i32": "n", "str": "s", "version": "n", "header": "snnnnbn", "settings": "nnsb", "done": "nn", "size": "n", "abort": "nbn",
         "chunks": "nn", "encryption": "nsn", "footer": "n", "HEADER": "nnssn", "CREATE": "nsnn", "BLOCK": "nnnn", "INVAL": "nn", "RESIZE": "nnn",
         "DIRINVAL": "n"}
ESHAPE = dict(SHAPE, settings="nnnsb")


def le(v):
    return list((v % 2**64).to_bytes(8, "little"))


def num(b):
    return int.from_bytes(bytes(b), "little")


def hx(b):
    return bytes(b).hex() or "-"


def unhx(s):
    return [] if s == "-" else list(bytes.fromhex(s))


def words_file(f):
    return [str(num(f[0])), hx(f[1]), str(num(f[2])), str(len(f[3]))] + [str(num(x)) for i in f[3] for x in i]


def words(kind, f):
    if kind == "checkpoints":
        return [str(len(f))] + [str(num(cp[k])) for cp in f for k in (0, 1, 2, 3, 4)]
    if kind == "file":
        return words_file(f)
    shape = ESHAPE[kind][1:] if kind in LOG else ESHAPE[kind]
    if kind == "HEADER":
        shape, f = shape[1:], f[1:]  # the version is the code's own
    return [hx(v) if t == "s" else str(v) if t == "b" else str(num(v)) for t, v in zip(shape, f)]


def read_file(w):
    seq, name, size, n = int(w.pop(0)), unhx(w.pop(0)), int(w.pop(0)), int(w.pop(0))
    return [le(seq), name, le(size), [[le(int(w.pop(0))), le(int(w.pop(0)))] for _ in range(n)]]


def fields(kind, w):
    w = list(w)
    if kind == "checkpoints":
        n = int(w.pop(0))
        r = [[le(int(w.pop(0))) for _ in range(5)] for _ in range(n)]
        return r + w  # anything left over is no checkpoint
    if kind == "file":
        return read_file(w)
    if kind == "files":
        return [read_file(w) for _ in range(int(w.pop(0)))]
    return [unhx(v) if t == "s" else int(v) if t == "b" else le(int(v)) for t, v in zip(SHAPE[kind], w)]


def varlen(v):
    n = 1
    while n < 9 and v >= 128:
        v >>= 7
        n += 1
    return n


class Runner:
    def __init__(self, c):
        self.c = c
        self.exe = vlib.build("wirefmt", vlib.hsrc("wirefmt.cpp"), with_lib=True)
        self.lines, self.recs = [], []

    def add(self, line, rec):
        self.lines.append(line)
        self.recs.append(rec)

    def enc(self, kind, v, f, off, mx):
        self.add("enc %s %d %d %d %s" % (kind, v, off, mx, " ".join(words(kind, f))), dict(op="enc", kind=kind, v=v, f=f, off=off, max=mx))

    def dec(self, kind, v, src, off, mx):
        self.add("dec %s %d %d %d %s" % (kind, v, off, mx, hx(src)), dict(op="dec", kind=kind, v=v, src=list(src), off=off, max=mx))

    def flush(self):
        """Runs what was added; the records as the code made them."""
        got = []
        n = -(-len(self.lines) // vlib.JOBS) or 1
        with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
            for k, (o, rc, err) in zip(range(0, len(self.lines), n),
                                       ex.map(lambda k: vlib.run_lines(self.exe, self.lines[k:k + n]), range(0, len(self.lines), n))):
                m = len(self.lines[k:k + n])
                got += o[:m] + ["crash"] * (m - len(o))
        out = []
        for line, rec, o in zip(self.lines, self.recs, got):
            w = o.split()
            rec["line"] = line if len(line) < 3000 else line[:3000] + "..."
            if w == ["crash"] or not w:
                out.append(dict(op="crash", line=rec["line"]))
                continue
            if rec["op"] == "enc":
                rec.update(ok=w[0] == "1", to=int(w[1]), clean=w[2] == "1", out=unhx(w[3]))
            elif rec["op"] == "logenc":
                rec.update(ok=w[0] == "1", t0=le(int(w[2])), t1=le(int(w[3])), clean=w[4] == "1", out=unhx(w[5]))
            elif rec["op"] == "dec":
                rec.update(ok=w[0] == "1", to=int(w[1]), f=fields(rec["kind"], w[2:]) if w[0] == "1" else [])
            elif rec["op"] == "list":
                rec.update(n=int(w[0]), to=int(w[1]), clean=w[2] == "1", out=unhx(w[3]))
            elif rec["op"] == "const":
                rec["c"] = {w[k]: int(w[k + 1]) for k in range(0, len(w), 2)}
            elif rec["op"] == "maxlocal":
                rec["n"] = int(w[0])
            out.append(rec)
        self.lines, self.recs = [], []
        return out


def rnum(rng, bits=63):
    v = rng.choice(NUMS + [rng.getrandbits(rng.randrange(1, 64))])
    return min(v, 2**bits - 1)


def rstr(rng):
    return [rng.choice([0, 47, 97, 128, 255]) for _ in range(rng.choice([0, 1, 2, 5, 20, 127, 128, 200]))]


def rfile(rng, most):
    chunks, p = [], 0
    for _ in range(rng.choice([0, 1, 2, most])):
        s = min(p + rng.choice([0, 1, 1 << 20]), 2**62)
        e = s + rng.choice([0, 1, 1 << 24, 1 << 40])
        chunks.append([le(s), le(e)])
        p = e
    return [le(rnum(rng)), rstr(rng), le(rnum(rng)), chunks]


def rfields(rng, kind):
    if kind == "checkpoints":
        return [[le(rnum(rng, 31))] + [le(rnum(rng)) for _ in range(4)] for _ in range(rng.choice([0, 1, 2, 8]))]
    if kind == "file":
        return rfile(rng, 5)
    f = [rstr(rng) if t == "s" else rng.randrange(256) if t == "b" else le(rnum(rng)) for t in ESHAPE[kind]]
    if kind in ("u", "i"):
        f[0] = le(rng.getrandbits(64))
    if kind in ("i32", "footer"):
        f[0] = le(rng.choice([1, -1]) * rnum(rng, 31))
    if kind == "header":
        f[5] = rng.randrange(5)
    if kind == "settings":
        f[0], f[1], f[2], f[4] = le(rng.choice(VERSIONS)), le(rnum(rng, 31)), le(rnum(rng, 31)), rng.randrange(16)
    if kind == "abort":
        f[0] = le(rnum(rng, 31))
    if kind == "encryption":
        f[0], f[2] = le(rng.randrange(3)), le(rnum(rng, 31))
    return f


def run(c):
    rng = c.rng
    msgs = judge.cases(c, "WireMC", MC % (2 if c.thorough else 1), timeout=850)
    R = Runner(c)
    # ---- encoding: in ample room, in exactly enough, in too little
    todo = [m for m in msgs if m["kind"] not in LOG]
    kinds = sorted({m["kind"] for m in todo})
    if c.thorough:
        todo = rng.sample(todo, min(len(todo), 30000))
    for _ in range(600 if not c.thorough else 6000):
        k = rng.choice(kinds)
        f = rfields(rng, k)
        todo.append(dict(kind=k, f=f, v=num(f[0]) if k == "settings" else rng.choice(VERSIONED.get(k, (32,)))))
    for m in todo:
        R.enc(m["kind"], m["v"], m["f"], rng.choice([0, 0, 1, 37]), 20000)
    recs = R.flush()
    encoded = [r for r in recs if r["op"] == "enc" and r["ok"] and r["out"]]
    some = rng.sample(encoded, min(len(encoded), 400 if not c.thorough else 6000))
    for r in some:
        n = len(r["out"])
        for room in sorted({n, n - 1, n - 2, n // 2, rng.randrange(n), 0, 1}):
            if 0 <= room <= n:
                off = rng.choice([0, 5])
                R.enc(r["kind"], r["v"], r["f"], off, off + room)
    logs = [m for m in msgs if m["kind"] in LOG]
    if c.thorough:
        logs = rng.sample(logs, min(len(logs), 3000))
    logs += [dict(kind=k, f=rfields(rng, k)) for k in LOG for _ in range(30)]
    for m in logs:
        f = [le(2)] + m["f"][2:] if m["kind"] == "HEADER" else m["f"][1:]
        n = 3 + 8 + sum(varlen(len(x)) + len(x) if t == "s" else varlen(num(x)) for t, x in zip(SHAPE[m["kind"]][1:], f))
        for mx in {20000, n, n - 1, rng.randrange(3, n + 1)}:
            R.add("logenc %s %d %s" % (m["kind"], mx, " ".join(words(m["kind"], f))),
                  dict(op="logenc", kind=m["kind"], f=f, fits=int(n <= mx)))
    # ---- lists of files, with the buffer's end anywhere
    for _ in range(500 if not c.thorough else 6000):
        files = [rfile(rng, 60) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
        start = rng.randrange(len(files) + 1)
        off = rng.choice([0, 0, 7])
        need = [32 + len(f[1]) for f in files]
        size = [n + 20 * len(f[3]) for n, f in zip(need, files)]
        low = off + max(need, default=0)
        mx = max(low, rng.choice([low, off + sum(size), off + sum(size) - 1, off + max(size, default=0), off + max(size, default=0) - 1,
                                  rng.randrange(low, off + sum(size) + 50)]))
        R.add("list %d %d %d %d %s" % (off, mx, start, len(files), " ".join(w for f in files for w in words_file(f))),
              dict(op="list", f=files, start=start, off=off, max=mx, room=True))
    R.add("const", dict(op="const"))
    for v in range(9, 40):
        R.add("maxlocal %d" % v, dict(op="maxlocal", v=v))
    more = R.flush()
    recs += more
    # ---- decoding: as written, cut off anywhere, followed by something, damaged, at another version, and noise
    pool = [(r["kind"], r["v"], r["out"]) for r in rng.sample(encoded, min(len(encoded), 900 if not c.thorough else 12000))]
    for r in more:
        if r["op"] == "logenc" and r["ok"] and rng.random() < (0.5 if not c.thorough else 1):
            pool.append((r["kind"], 0, r["out"][3:]))
        if r["op"] == "list" and r["out"]:
            pool.append(("files", 32, r["out"][r["off"]:]))
    for v in range(19, 33):  # the old way of writing -1
        for tail in ([1], [2], [], [1, 0], [0]):
            pool.append(("checkpoints", v, [1, 9, 3, 4] + [255] * 9 + tail + [5]))
    for kind, v, b in pool:
        if kind == "settings":
            n = 1
            while b[n - 1] >= 128 and n < 9:
                n += 1
            R.dec("version", v, b, 0, len(b))
            pre, b = b[:n], b[n:]
        elif kind in LOG:
            pre = []
        else:
            pre = [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 9]))]
        o, n = len(pre), len(b)
        cuts = set(range(n)) if n < 12 else {0, 1, n - 1, n - 2} | {rng.randrange(n) for _ in range(6)}
        for k in sorted({n} | cuts) if kind in LOG or rng.random() < .7 else [n]:
            # what follows the end is there, to be misread
            R.dec(kind, v, pre + b, o, o + k)
        R.dec(kind, v, pre + b + [rng.choice([0, 1, 128, 255]) for _ in range(3)], o, o + n + rng.randrange(4))
        for _ in range(3):
            d = list(b)
            for _ in range(rng.choice([1, 1, 2])):
                if d:
                    d[rng.randrange(min(len(d), 40))] = rng.choice([0, 1, 2, 3, 4, 127, 128, 129, 255, rng.randrange(256)])
            R.dec(kind, v, pre + d, o, o + len(d))
        if kind in VERSIONED:
            for w in VERSIONED[kind]:
                R.dec(kind, w, pre + b, o, o + n)
    allkinds = list(SHAPE) + ["checkpoints", "file", "files"]
    for _ in range(4000 if not c.thorough else 60000):
        kind = rng.choice(allkinds)
        style = rng.choice([[0, 1, 2, 255], [255], [1, 128, 0], list(range(256)), [127, 128]])
        b = [rng.choice(style) for _ in range(rng.choice([0, 1, 2, 5, 9, 10, 13, 16, 23, 40]))]
        R.dec(kind, rng.choice(VERSIONS), b, 0, len(b))
    recs += R.flush()
    lines = [r.pop("line") for r in recs]
    bad = judge.judge(c, "Wire", recs)
    seen = set()
    for k in bad:
        r = recs[k]
        key = "%s:%s" % (r["op"], r.get("kind", ""))
        if key not in seen:
            seen.add(key)
            c.violation("%s: not what the format says" % key, "wirefmt <<< '%s'\n%s" % (lines[k], str(r)[:2000]))
    c.add("messages", sum(r["op"] in ("enc", "logenc") for r in recs))
    c.add("decodings", sum(r["op"] == "dec" for r in recs))
    c.add("accepted", sum(r["op"] == "dec" and r["ok"] for r in recs))
    c.add("lists", sum(r["op"] == "list" for r in recs))
    for r in (0, len(recs) // 2, -1):
        c.sample(lines[r][:300])
    c.assumptions = ["a caller does not ask for more bytes than its buffer has (off <= max)"]
