"""C28: counters, histograms and transfer statistics (spec/Stats.tla; histories
from StatsMC)."""
import concurrent.futures as cf
import json
import judge
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION Spec
CONSTANTS N = 2 Vals = {%s} MaxOps = %d Emit = %s
INVARIANTS Agree Show
CHECK_DEADLOCK FALSE
"""
EDGES = [0, 1, 2, 10, 11, 12, 13, 14, 20, 24, 25, 50, 99, 100, 101, 120, 1000, 1999, 2000, 5000, 7499, 7500, 99999, 100000, 100001, 250000, -1, -7]


def ops(r, n, vals, k):
    out, merges = [], 0
    for _ in range(k):
        i = r.randrange(1, n + 1)
        x = r.random()
        if .75 <= x < .93 and n > 1:
            merges += 1
            if merges > 5:
                x = 0
        if x < .75 or n == 1 and x < .93:
            out.append("r,%d,%d" % (i, vals(r)))
        elif x < .93:
            out.append("m,%d,%d" % (i, r.choice([j for j in range(1, n + 1) if j != i])))
        else:
            out.append("z,%d,0" % i)
    return " ".join(out)


def stat(r, errs=True):
    e = lambda: r.choice([0, 0, 0, 0, 1, 3, 5, 13, 28, 34]) if errs else 0
    v = lambda: r.choice([0, 1, 5, 100, 4096])
    return [v(), v(), v(), v(), v() % 7, r.choice([0, 1, 2, 5]), r.randrange(3), r.choice([-1, -1, 0, 1, 2, 5]), r.choice([-1, -1, 0, 1, 5, 100, 4096]), e(), e()]


def run(c):
    c.assumptions += ["one operation on a statistic at a time: the code documents reads that race with recording threads as approximate",
                      "folly::ThreadLocalPtr is the shim's"]
    exe = vlib.build("stats", vlib.hsrc("stats.cpp"), with_lib=True)
    r = c.rng
    k = 8 if c.thorough else 1
    hist = judge.cases(c, "StatsMC", CFG % ("0, 1, 3" if not c.thorough else "0, 1, 2, 3", 4, "TRUE"))
    if len(hist) > 5000 * k:
        hist = r.sample(hist, 5000 * k)
    lines = ["ctr 2 1 " + " ".join("%s,%d,%d" % tuple(o) for o in h) for h in hist]
    lines += ["tls c " + " ".join("r,%d,%d" % (o[1], o[2]) if o[0] == "r" else "g,%d,0" % (o[2] > 1) if o[0] == "m" else "x,%d,0" % o[1] for o in h) + " g,0,0"
              for h in r.sample(hist, 300 * k)]
    for _ in range(1500 * k):
        n = r.randrange(1, 5)
        lines.append("ctr %d %s %s" % (n, r.choice([1, 1, 1, 1 << 20, 1 << 33]), ops(r, n, lambda r: r.choice([0, 0, 1, -1, 3, 100, 1000, -1000, r.randrange(2000)]), r.randrange(1, 30))))
    for b in EDGES:
        lines.append("hist 1 1 0 r,1,%d" % b)
    for _ in range(1500 * k):
        n = r.randrange(1, 4)
        div = r.choice([1, 1, 1, 10, 1000, 3])
        off = r.choice([0, 0, 0, 5, -3, 1000])
        top = r.choice([12, 100, 1000, 20000, 150000])
        lines.append("hist %d %d %d %s" % (n, div, off, ops(r, n, lambda r: off + (r.choice(EDGES) * div + r.choice([0, 0, div - 1, -1]) if r.random() < .4 else r.randrange(top * min(div, 10))), r.randrange(1, 60))))
    for _ in range(400 * k):
        o = []
        for _ in range(r.randrange(3, 40)):
            x = r.random()
            t = r.randrange(4)
            o.append("r,%d,%d" % (t, r.choice([0, 1, 5, -2, 100, r.randrange(1000)])) if x < .7 else "g,0,0" if x < .88 else "x,%d,0" % max(1, t))
        lines.append("tls %s %s g,0,0" % (r.choice("cchp"), " ".join(o)))
    for _ in range(1500 * k):
        lines.append("add %s" % " ".join(map(str, stat(r) + stat(r))))
    for _ in range(1500 * k):
        ts = [stat(r, r.random() < .5) for _ in range(r.randrange(1, 5))]
        for t in ts:
            if r.random() < .8:
                t[7] = t[8] = -1
        bad = [(r.choice("abc"), r.choice([1, 7, 34])) for _ in range(r.choice([0, 0, 0, 1, 3]))]
        tot = sum(t[3] for t in ts) + r.choice([0, 0, 0, 1, -1, 100])
        lines.append("srep %d %d %d %d %s %d %s" % (tot, r.randrange(3, 9), r.choice([0, 0, 0, 1]), len(ts), " ".join(" ".join(map(str, t)) for t in ts), len(bad), " ".join("%s %d" % b for b in bad)))
        t = stat(r)
        if r.random() < .6:
            t[7] = t[5]
        if r.random() < .5:
            t[8] = t[3]
        if r.random() < .6:
            t[10] = 0
        lines.append("rrep " + " ".join(map(str, t)))
    for _ in range(600 * k):
        n = r.randrange(1, 4)
        lines.append("perf %d %d %s" % (n, r.randrange(15), ops(r, n, lambda r: r.choice([0, 999, 1000, 5000, 12000, 99999, 100000, 2000000, 10000000, r.randrange(60000)]), r.choice([1, 3, 10, 25]))))
    r.shuffle(lines)
    n = -(-len(lines) // vlib.JOBS)
    recs, where = [], []
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for lo, (o, rc, err) in zip(range(0, len(lines), n), ex.map(lambda lo: vlib.run_lines(exe, lines[lo:lo + n]), range(0, len(lines), n))):
            part = lines[lo:lo + n]
            if rc != 0 or len(o) != len(part):
                c.violation("crash", {"input": part[min(len(o), len(part) - 1)], "rc": rc, "stderr": err[-1500:]})
                return
            recs += [json.loads(x) for x in o]
            where += part
    c.add("histories", len(recs))
    seen = {}
    for i in judge.judge(c, "Stats", recs):
        seen.setdefault(recs[i]["k"], []).append(i)
    for kind, l in seen.items():
        l.sort(key=lambda i: len(where[i]))
        for i in l[:3]:
            c.violation(kind, {"input": where[i], "record": recs[i], "how_many": len(l)})
    for i in (0, len(recs) // 2, len(recs) - 1):
        c.sample({"input": where[i][:300]})
