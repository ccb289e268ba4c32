"""C22: directory discovery (spec/Discover.tla; trees from DiscoverMC and random
larger ones, run on a real file system)."""
import concurrent.futures as cf
import json
import os
import judge
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION Spec
CONSTANTS Emit = %s
Run = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
NAMES = ["a", "b", "aa", ".h", "..x", "...", "a.b", "x+y", "long_name_of_a_file"]


def pat(k, s=""):
    return {"k": k, "s": s}


def regex(p):
    esc = "".join(("\\" + ch if ch in ".+*()[]" else ch) for ch in p["s"])
    return {"": "-", "all": ".*", "lit": esc, "pre": esc + ".*", "suf": ".*" + esc}[p["k"]]


def rtree(r):
    """A random tree: [p, t, sz, id, to, bad] with physical parents."""
    nodes = [("src",), ("out",)]
    dirs = [("src",), ("src",), ("out",)]
    out = {("src",): "d", ("out",): "d"}
    for _ in range(r.choice([0, 1, 4, 8, 16, 30])):
        d = r.choice(dirs)
        p = d + (r.choice(NAMES),)
        if p in out or len(p) > 5:
            continue
        t = r.choice("fffdddlx" if len(out) < 8 else "ffffdlx")
        out[p] = t
        nodes.append(p)
        if t == "d":
            dirs.append(p)
    ids = 64
    res = []
    links = sum(t == "l" for t in out.values())
    for p in nodes:
        t = out[p]
        ids += 1
        to = []
        if t == "l":
            c = r.random()
            to = list(r.choice([q for q in nodes if q != p])) if c < .85 and (links < 4 or r.random() < .5) else ["out", "none"] if c < .95 else list(p)
        res.append({"p": list(p), "t": t, "sz": r.choice([0, 1, 5, 1023, 1024, 1025, 4096, 9000]) if t == "f" else 0, "id": ids % 120 + 1, "to": to, "bad": ""})
    return res


def ropts(r, nodes):
    rels = ["/".join(n["p"][1:]) for n in nodes if n["p"][0] == "src" and len(n["p"]) > 1] or ["a"]

    def rp(end=""):
        k = r.choice(["", "", "", "lit", "pre", "suf", "all"])
        s = r.choice(rels) + end
        if k == "pre":
            s = s[:r.randrange(len(s)) + 1]
        if k == "suf":
            s = s[r.randrange(len(s)):]
        return pat(k, s if k not in ("", "all") else "")
    return {"follow": r.random() < .5, "inc": rp(), "exc": r.choice([rp(), pat("")]), "prune": r.choice([rp("/"), pat("")]), "block": r.choice([0, 1024, 4096, -1024])}


def cmd(r, x):
    t = []
    for n in x["nodes"]:
        p = "/".join(n["p"])
        if n["t"] == "f":
            t.append("f:%s:%d:%d" % (p, n["sz"], n["id"]))
        elif n["t"] == "l":
            to = "/".join(n["to"])
            t.append("l:%s:%s" % (p, r.choice(["@/" + to, "../" * (len(n["p"]) - 1) + to])))
        else:
            t.append("%s:%s" % (n["t"], p))
        if n["bad"] == "list":
            t.append("L:%s:%d" % (p, r.randrange(4)))
        elif n["bad"]:
            t.append({"open": "O", "stat": "S", "read": "R"}[n["bad"]] + ":" + p)
    o = x["o"]
    t += ["follow=%d" % o["follow"], "inc=" + regex(o["inc"]), "exc=" + regex(o["exc"]), "prune=" + regex(o["prune"]), "block=%d" % o["block"],
          "unk=%d" % r.randrange(2), "rev=%d" % r.randrange(2), "open=%d" % r.choice([0, 0, 1, 3, -1]), "direct=%d" % (r.random() < .15), "par=%d" % r.choice([0, 0, 1, 3])]
    if x["mode"] == "list":
        ent = ["%s:%d:%d" % (e["n"], e["given"], e["how"]) for e in x["list"]]
        cut = sorted(r.randrange(len(ent) + 1) for _ in range(r.choice([0, 0, 1, 2])))
        parts = [ent[a:b] for a, b in zip([0] + cut, cut + [len(ent)])]
        t.append("list=" + (",".join(parts[0]) or "-"))
        if len(parts) > 1:
            t.append("gen=" + ";".join(",".join(q) or "-" for q in parts[1:]))
    return " ".join(t)


def rlist(r):
    nodes = [n for n in rtree(r) if n["t"] in "fd"]
    es = []
    for n in nodes:
        if n["p"][0] != "src" or n["t"] != "f":
            continue
        rd = r.random() < .08
        how = 0 if rd or r.random() < .8 else 1
        if rd:
            n["bad"] = "read"
        es.append({"n": "/".join(n["p"][1:]), "sz": n["sz"], "given": r.choice([-1, n["sz"]]), "how": how, "id": n["id"], "ok": not rd})
    r.shuffle(es)
    if r.random() < .2:
        es.insert(r.randrange(len(es) + 1), {"n": "missing", "sz": 7, "given": r.choice([-1, 7]), "how": 0, "id": 0, "ok": False})
    return {"mode": "list", "nodes": nodes, "list": es, "o": ropts(r, nodes)}


def run(c):
    c.assumptions += ["patterns are literals, prefixes, suffixes and everything (the grammar of std::regex is not modelled)", "the tree does not change while it is being discovered"]
    exe = vlib.build("discover", vlib.hsrc("discover.cpp"), with_lib=True)
    r = c.rng
    c.tlc_counts(vlib.tlc_or_die("DiscoverMC", CFG % ("FALSE", "TRUE", "Found1 Sound Bounded"), workers=vlib.JOBS, heap="8g"))
    trees = judge.cases(c, "DiscoverMC", CFG % ("TRUE", "FALSE", "Show"))
    work = []
    if not c.thorough:
        trees = r.sample(trees, 1500)
    for n in trees:
        work.append({"mode": "tree", "nodes": n, "o": ropts(r, n) if r.random() < .6 else {"follow": True, "inc": pat(""), "exc": pat(""), "prune": pat(""), "block": 1024}, "list": []})
    k = 40 if c.thorough else 1
    for _ in range(1800 * k):
        n = rtree(r)
        o = ropts(r, n)
        if r.random() < .5:
            o["inc"], o["exc"], o["prune"] = pat(""), pat(""), pat("")
        if r.random() < .35:
            for b in r.sample(n, min(len(n), r.choice([1, 1, 2]))):
                if b["p"] in (["src"], ["out"]) and r.random() < .7:
                    continue
                if b["t"] == "d":
                    b["bad"] = r.choice(["open", "list", "stat"])
                elif b["t"] == "f":
                    b["bad"] = "read"
        work.append({"mode": "tree", "nodes": n, "o": o, "list": []})
    work += [rlist(r) for _ in range(500 * k)]
    for w in work:
        w["line"] = cmd(r, w)
    n = -(-len(work) // vlib.JOBS)
    recs = []

    def one(lo):
        with vlib.Scratch("disc") as d:
            os.chmod(d, 0o777)
            o, rc, err = vlib.run_lines(exe, [w["line"] for w in work[lo:lo + n]], args=[d])
        return lo, o, rc, err
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for lo, o, rc, err in ex.map(one, range(0, len(work), n)):
            part = work[lo:lo + n]
            if rc != 0 or len(o) != len(part):
                c.violation("crash", {"input": part[min(len(o), len(part) - 1)]["line"], "rc": rc, "stderr": err[-1500:]})
                return
            recs += [dict(json.loads(x), **{k: w[k] for k in ("mode", "nodes", "o", "list")}) for w, x in zip(part, o)]
    c.add("trees_discovered", len(recs))
    c.add("files_found", sum(len(x["found"]) for x in recs))
    c.add("failed_discoveries", sum(not x["rep"] for x in recs))
    bad = judge.judge(c, "Discover", recs)
    for i in bad[:5]:
        c.violation(recs[i]["mode"], {"input": work[i]["line"], "record": {k: recs[i][k] for k in recs[i] if k != "nodes"}, "how_many": len(bad)})
    for i in (0, len(recs) // 2, len(recs) - 1):
        c.sample({"input": work[i]["line"][:300]})
