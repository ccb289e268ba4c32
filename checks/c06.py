"""C06: what a transfer log means (spec/Log.tla)."""
import concurrent.futures as cf
import judge
import vlib
LEVEL = "model_checking"
MC = """SPECIFICATION Spec
CONSTANTS MaxLen = %d Ses = {%s}
INVARIANTS Inv %s
CHECK_DEADLOCK FALSE
"""
TYPES = ["HEADER", "CREATE", "BLOCK", "INVAL", "RESIZE", "DIRINVAL"]
BIG = 10**9          # the specification's numbers have 31 bits
REAL = 2**63 - 1     # what it stands for
SIZES = {"a": 4, "b": 6}


def var(v):
    r = []
    while v >= 128 and len(r) < 8:
        r.append(128 | v & 127)
        v >>= 7
    return bytes(r + [v & 255])


def s(x):
    return var(len(x)) + x.encode()


def up(v, scale):
    return REAL if v >= BIG else v * scale


def enc(e, rng, scale):
    t = var(rng.randrange(1 << 50))
    m = e["m"]
    if m == "JUNKLEN":
        return rng.choice([b"\0\0", b"\xff\xff", b"\x00\x7f", b"\xfb\xff"]) + b"junk"
    if m == "JUNK":
        b = rng.choice([bytes([6]) + t, bytes([77, 1, 2]), bytes([255])])
        return len(b).to_bytes(2, "little") + b
    b = bytes([TYPES.index(m)]) + t
    if m == "HEADER":
        b += var(e["v"]) + s(e["rid"]) + s(e["ip"]) + var(e["cfg"])
    elif m == "CREATE":
        b += s(e["name"]) + var(e["seq"]) + var(up(e["fs"], scale))
    elif m == "BLOCK":
        b += var(e["seq"]) + var(up(e["off"], scale)) + var(up(e["len"], scale))
    elif m == "RESIZE":
        b += var(e["seq"]) + var(up(e["fs"], scale))
    elif m == "INVAL":
        b += var(e["seq"])
    return len(b).to_bytes(2, "little") + b


class In:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if self.p + n > len(self.b):
            raise ValueError
        self.p += n
        return self.b[self.p - n:self.p]

    def var(self):
        v = 0
        for k in range(9):
            c = self.take(1)[0]
            v |= (c if k == 8 else c & 127) << (7 * k)
            if c < 128:
                break
        return v

    def str(self):
        return self.take(self.var()).decode("latin-1")


def down(v, scale):
    return BIG if v == REAL else v // scale if v % scale == 0 and v // scale < BIG else -1


def entry(b, scale):
    i = In(b)
    t = i.take(1)[0]
    if t >= len(TYPES):
        return {"m": "JUNK"}
    m = TYPES[t]
    i.var()
    e = {"m": m}
    if m == "HEADER":
        e.update(v=i.var(), rid=i.str(), ip=i.str(), cfg=i.var())
    elif m == "CREATE":
        e.update(name=i.str(), seq=i.var(), fs=down(i.var(), scale))
    elif m == "BLOCK":
        e.update(seq=i.var(), off=down(i.var(), scale), len=down(i.var(), scale))
    elif m == "RESIZE":
        e.update(seq=i.var(), fs=down(i.var(), scale))
    elif m == "INVAL":
        e.update(seq=i.var())
    if i.p != len(b):
        raise ValueError
    return e


def dec(b, given, scale):
    """The entries of a log; of those it began with, what was given."""
    res, p = [], 0
    for e, raw in given:
        if b[p:p + len(raw)] != raw:
            break
        res.append(e)
        p += len(raw)
    while p < len(b):
        n = int.from_bytes(b[p:p + 2], "little")
        if p + 2 + n > len(b) or n == 0:
            return res, True
        try:
            res.append(entry(b[p + 2:p + 2 + n], scale))
        except (ValueError, UnicodeDecodeError):
            res.append({"m": "JUNK"})
        p += 2 + n
    return res, False


def rlog(rng, ses, n):
    """A longer log, mostly one that makes sense."""
    good = dict(m="HEADER", v=2, rid=ses["rid"], ip="ip", cfg=ses["cfg"])
    l, known = [good], {}
    wild = rng.choice([0, 0, .05, .3])
    for _ in range(n):
        q = rng.randrange(1, 5)
        x = rng.random()
        if rng.random() < wild:
            l.append(rng.choice([dict(good), dict(good, rid="other"), dict(good, ip="ip2"), dict(good, cfg=ses["cfg"] + 4), dict(good, cfg=0), dict(m="DIRINVAL"),
                                 dict(m="JUNK"), dict(m="INVAL", seq=q), dict(m="BLOCK", seq=q, off=rng.choice([1, BIG]), len=BIG),
                                 dict(m="CREATE", name="c", seq=q, fs=1), dict(m="RESIZE", seq=q, fs=rng.choice([2, 9])), dict(m="JUNKLEN")]))
        elif ses["tree"]:
            l.append(dict(good))
        elif q not in known:
            f = rng.choice("aab")
            known[q] = f
            l.append(dict(m="CREATE", name=f, seq=q, fs=rng.choice([SIZES[f], SIZES[f] - 1, 1])))
        elif x < .75:
            o = rng.randrange(SIZES[known[q]] + 1)
            l.append(dict(m="BLOCK", seq=q, off=o, len=rng.randrange(SIZES[known[q]] + 1 - o)))
        elif x < .85:
            l.append(dict(m="RESIZE", seq=q, fs=SIZES[known[q]] - (rng.random() < max(.1, wild))))
        else:
            l.append(dict(m="INVAL", seq=q))
            del known[q]
        if rng.random() < .03:
            l += [dict(m="DIRINVAL"), dict(good)]
            known = {}
    return l


def prepare(rng, op, ses, l, torn, scale, disk):
    given = [(e, enc(e, rng, scale)) for e in l]
    raw = b"".join(r for _, r in given)
    ip = rng.choice(["-", "ip", "ip2", "other"]) if op == "match" else "-"
    tail = b""
    if torn:
        full = enc(rng.choice([dict(m="BLOCK", seq=1, off=0, len=3), dict(m="HEADER", v=2, rid="r", ip="ip", cfg=1), dict(m="CREATE", name="b", seq=9, fs=1)]), rng, scale)
        tail = full[:rng.randrange(1, len(full))]
    w = []
    line = [op, int(ses["alloc"]), int(ses["tree"]), ses["rid"], ses["cfg"], ip, len(disk)]
    for f, n in disk.items():
        line += [f, n * scale]
    line.append((raw + tail).hex() or "-")
    if op == "write":
        for _ in range(0 if ses["tree"] else rng.choice([0, 1, 4])):
            q = rng.choice([1, 2, 127, 128, 300])
            w.append(rng.choice([dict(m="CREATE", name=rng.choice(["a", "b", "x" * 200]), seq=q, fs=rng.choice([0, 5, BIG])),
                                 dict(m="BLOCK", seq=q, off=rng.choice([0, 9, BIG]), len=rng.choice([0, 3, BIG])),
                                 dict(m="RESIZE", seq=q, fs=rng.choice([0, 7, BIG])), dict(m="INVAL", seq=q)]))
        line.append(len(w))
        for e in w:
            line += ([e["m"][0]] + ([e["name"]] if e["m"] == "CREATE" else []) + [e["seq"]] +
                     [up(e[k], scale) for k in ("off", "len", "fs") if k in e])
    rec = dict(op=op, ses=ses, size=disk, l=l, torn=int(torn), ip=ip, w=w)
    return " ".join(str(x) for x in line), rec, given, scale, tail


def finish(rec, given, scale, tail, out):
    w = out.split()
    try:
        st, ver, n = w[0], w[1], int(w[2])
        w = w[3:]
        prog = []
        for _ in range(n):
            q, name, fs, k = int(w[0]), w[1], int(w[2]), int(w[3])
            ch = [[down(int(x), scale) for x in w[4 + 2 * j:6 + 2 * j]] for j in range(k)]
            w = w[4 + 2 * k:]
            prog.append(dict(seq=q, name=name, fs=down(fs, scale), ch=ch))
        b = b"" if w[0] == "-" else bytes.fromhex(w[0])
    except (IndexError, ValueError):
        return dict(op="crash")
    before = b"".join(r for _, r in given)
    still = bool(tail) and b == before + tail
    if still:
        b = before
    after, odd = dec(b, given, scale)
    if odd and "JUNKLEN" not in [e["m"] for e in rec["l"]]:
        return dict(op="crash")
    rec = dict(rec, st={"INVALID_LOG": "INVALID", "INCONSISTENT_DIRECTORY": "INCONSISTENT"}.get(st, st), prog=prog, after=after, gone=int(not still),
               ver="-" if rec["ip"] == "-" else ver, ok=int(ver))
    return rec


def run(c):
    rng = c.rng
    drawn = judge.cases(c, "LogMC", MC % (3, '"log", "lazy", "tree"', "Dump"))
    four = judge.cases(c, "LogMC", MC % (4, '"log"' if not c.thorough else '"log", "lazy", "tree"', "Dump"), timeout=850)
    drawn += rng.sample(four, min(len(four), 3000 if not c.thorough else 40000))
    if c.thorough:
        r = vlib.tlc_or_die("LogMC", MC % (5, '"log", "lazy"', ""), timeout=850)
        c.tlc_counts(r)
    todo = []
    for x in drawn:
        todo.append(("match", x["ses"], x["l"], rng.random() < .3))
        if rng.random() < .2:
            todo.append((rng.choice(["print", "compact", "write"]), x["ses"], x["l"], rng.random() < .3))
    sessions = [dict(rid="r", cfg=1, alloc=True, tree=False), dict(rid="r", cfg=0, alloc=False, tree=False), dict(rid="r", cfg=3, alloc=True, tree=True)]
    for _ in range(4000 if not c.thorough else 40000):
        ses = rng.choice(sessions[:2] if rng.random() < .9 else sessions)
        l = rlog(rng, ses, rng.choice([3, 8, 20, 40]))
        todo.append((rng.choice(["match"] * 4 + ["print", "compact", "compact", "write"]), ses, l, rng.random() < .4))
    cases = []
    for op, ses, l, torn in todo:
        if "JUNKLEN" in [e["m"] for e in l]:
            l = l[:[e["m"] for e in l].index("JUNKLEN") + 1]
            torn = False
        disk = dict(SIZES) if rng.random() < .9 else rng.choice([{"a": 4, "b": 2}, {"a": 3, "b": 6}, {"b": 6}, {"a": 9, "b": 9, "c": 5}])
        cases.append(prepare(rng, op, ses, l, torn, rng.choice([1, 1, 1000, 1 << 30]), disk))
    # a log cut at every byte
    for _ in range(40 if not c.thorough else 1000):
        ses = rng.choice(sessions[:2])
        l = rlog(rng, ses, 4)
        given = [enc(e, rng, 1) for e in l]
        if "JUNKLEN" in [e["m"] for e in l]:
            continue
        for n in range(sum(map(len, given))):
            k = 0
            while sum(map(len, given[:k + 1])) <= n:
                k += 1
            head = list(zip(l[:k], given[:k]))
            tail = b"".join(given)[sum(map(len, given[:k])):n]
            line = ["match", int(ses["alloc"]), int(ses["tree"]), ses["rid"], ses["cfg"], "-", 2, "a", 4, "b", 6, b"".join(given)[:n].hex() or "-"]
            cases.append((" ".join(map(str, line)), dict(op="match", ses=ses, size=SIZES, l=l[:k], torn=int(bool(tail)), ip="-", w=[]), head, 1, tail))
    exe = vlib.build("logs", vlib.hsrc("logs.cpp"), with_lib=True)
    lines = [x[0] for x in cases]
    n = -(-len(lines) // vlib.JOBS)
    out = []
    with vlib.Scratch("logs") as d, cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for k, (o, rc, err) in zip(range(0, len(lines), n), ex.map(lambda k: vlib.run_lines(exe, lines[k:k + n], args=[d]), range(0, len(lines), n))):
            m = len(lines[k:k + n])
            out += o[:m] + ["crash"] * (m - len(o))
    recs = [finish(x[1], x[2], x[3], x[4], o) for x, o in zip(cases, out)]
    seen = set()
    for k in judge.judge(c, "LogJudge", recs):
        key = "%s:%s" % (cases[k][1]["op"], recs[k].get("st", "crash"))
        if key not in seen:
            seen.add(key)
            c.violation("%s: not what the log means" % key, "logs DIR <<< '%s'\ngot %s\nlog %s\n%s" % (lines[k], out[k], cases[k][1]["l"], recs[k]))
    c.add("logs", len(recs))
    c.add("accepted_with_progress", sum(r.get("st") == "OK" and bool(r.get("prog")) for r in recs))
    for op in ("match", "print", "compact", "write"):
        c.add(op, sum(x[1]["op"] == op for x in cases))
    for k in (0, len(lines) // 2, -1):
        c.sample(lines[k][:300])
    c.assumptions = ["the log is read and written without disk errors (those are C07's and C08's)"]
