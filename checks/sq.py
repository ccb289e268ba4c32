"""Programs over the sender's queue and histories (spec/SendQueue.tla)."""
import concurrent.futures as cf
import lin
import vlib

MC = """SPECIFICATION Spec
VIEW View
CONSTANTS Configs <- %s
 MaxLevel = %d
 NoSeq = TRUE
%s
CHECK_DEADLOCK FALSE
"""


def words_of(case):
    c = case["cfg"]
    w = {"np": c["np"], "block": c["block"], "del": int(c["del"]), "nfailed": len(c["files"]) + len(c["prev"])}
    w["files"] = ",".join("%d:%d:%d:%d" % (f["size"], f["ok"], f["stat"], 1 if f["ok"] and k % 2 else 0)
                          for k, f in enumerate(c["files"]))
    if c["prev"]:
        w["prev"] = ",".join("%d:%d:%d:%s" % (p["n"], p["seq"], p["size"], ":".join("%d-%d" % tuple(x) for x in p["ch"]))
                             for p in c["prev"])
    return w


def ending(rng, np):
    e = []
    style = rng.randrange(3)
    for p in range(np):
        e += [["add", p, "ok"], ["acked", p], ["isglob", p]]
    if style > 0:
        for _ in range(rng.choice([2, 12])):
            e += [["get", 0], ["add", 0, "ok"]]
    for p in range(np):
        e += [["all" if style == 2 else "unacked", p]]
    for p in range(np):
        e += [["pop", p], ["tstats", p]]
    return e + [["totals", 0], ["stat", 0], ["fin", 0], ["failed", 0]]


def sequential(c, n, depth, configs="All"):
    """Programs drawn from the specification by TLC's simulator."""
    def one(k):
        r = vlib.tlc("SendQueueMCC", MC % (configs, depth, "INVARIANTS PrintCase"), workers=1,
                     simulate=["num=%d" % -(-n // (3 * vlib.JOBS))], args=["-depth", str(depth), "-seed", str(vlib.SEED * 1000 + k)],
                     timeout=800, heap="1500m")
        if not r.ok:
            raise vlib.CheckError("SendQueueMCC: TLC ended with %d\n%s" % (r.rc, r.out[-3000:]))
        return vlib.tlc_prints(r, "CASE")
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        drawn = [x for l in ex.map(one, range(vlib.JOBS)) for x in l]
    cases = []
    for x in (c.rng.sample(drawn, n) if len(drawn) > n else drawn):
        cases.append({"cfg": x["cfg"], "prog": [[list(o) for o in x["log"]] + ending(c.rng, x["cfg"]["np"])]})
    return cases


def exhaustive(c, depth, configs="All"):
    r = vlib.tlc("SendQueueMCC", MC % (configs, depth, "CONSTRAINT Bound\nINVARIANTS NoDuplicate Conservation Lost Empties"),
                 timeout=800, heap="12g")
    if not r.ok:
        raise vlib.CheckError("SendQueueMCC: TLC ended with %d\n%s" % (r.rc, r.out[-3000:]))
    c.tlc_counts(r)
    c.cov["exhaustive_depth"] = depth


CONFIGS = [
    dict(files=[3, 9], block=4), dict(files=[8, 0, -4, 4], block=4), dict(files=[6, 2, 5], block=0),
    dict(files=[10, 3, 5], block=4, prev=[(1, 4, 10, [(0, 2), (4, 5)]), (2, 2, 8, [(0, 8)]), (3, 7, 5, [(0, 5)]),
                                          (5, 3, 3, [(0, 3)])], dele=True),
    dict(files=[6, 2], block=4, prev=[]), dict(files=[-3, 5], block=4), dict(files=[0], block=4),
    dict(files=[4, 4, 4], block=4, prev=[(1, 1, 4, [(0, 4)]), (6, 3, 2, [(0, 2)])], dele=True),
]


def concurrent(rng, n, history):
    """Random programs for a builder and several sender threads."""
    out = []
    for _ in range(n):
        k = rng.choice(CONFIGS)
        np = rng.choice([1, 2, 2, 3]) if not history else rng.choice([2, 2, 3])
        prev_on = "prev" in k
        cfg = {"np": np, "block": k["block"], "del": k.get("dele", False), "prevOn": prev_on,
               "files": [{"size": abs(s), "ok": s >= 0, "stat": True} for s in k["files"]],
               "prev": [{"n": a, "seq": b, "size": s, "ch": [list(x) for x in ch]} for a, b, s, ch in k.get("prev", [])]}
        progs = []
        for p in range(np):
            g = []
            if prev_on:
                g.append(["prev", p] if p == 0 else ["after", p])
            for _ in range(rng.randint(1, 4)):
                x = rng.random()
                if x < 0.7 or not history:
                    g.append(["get", p])
                    g.append(rng.choice([["add", p, "ok"], ["add", p, "ok"], ["back", p], ["add", p, "err"]]))
                elif x < 0.9:
                    g.append(["loc", p, rng.choice([-1, -1, -2, 0, 1]), rng.choice(["match", "match", "other", "noseq"]),
                              rng.choice([0, 0, 1, 2])])
                else:
                    g.append(["stat", p] if not prev_on else ["isglob", p])
            if history and p > 0 and rng.random() < 0.6:
                v = rng.randrange(p)
                g.insert(rng.randint(1 if prev_on else 0, len(g)),
                         ["glob", v, rng.choice([-1, -1, -2, 0, 1]), rng.choice(["match", "match", "other", "noseq"]),
                          rng.choice([0, 1, 2])])
            if history:
                g += [["add", p, rng.choice(["ok", "err"])], ["leave", p]]
            elif rng.random() < 0.5:
                g += [["get", p], ["fin", p]]
            progs.append(g)
        progs.append([["build", 0]])
        out.append({"cfg": cfg, "prog": progs})
    return out


def run(c, history, exh, nseq, depth, nconc):
    exhaustive(c, exh)
    exe = lin.build("sendqueue", ["sendqueue.cpp"])
    cases = sequential(c, nseq, depth)
    with vlib.Scratch("sq") as d:
        lin.explore(c, exe, cases, "SendQueueTrace", per_case=1, runs=len(cases), cfg_words=words_of, dirarg=d)
        conc = concurrent(c.rng, nconc, history)
        lin.explore(c, exe, conc, "SendQueueTrace", per_case=2, runs=nconc * 2, cfg_words=words_of, dirarg=d)
