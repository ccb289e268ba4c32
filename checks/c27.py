"""C27: reading and writing a block, over the answers of the system calls
(spec/BlockIO.tla; cases from BlockIOMC and BlockWMC)."""
import concurrent.futures as cf
import json
import judge
import vlib
LEVEL = "model_checking"
READ = """SPECIFICATION Spec
CONSTANTS K = %d Lens = {%s} Offs = {%s} Sizes = {%s} Bufs = {%s} MaxShort = %d MaxFlt = 1 WBlocks = 1 Emit = %s
INVARIANTS Inv Show
CHECK_DEADLOCK FALSE
"""
WRITE = """SPECIFICATION Spec
CONSTANTS FSize = %d MaxPiece = %d MaxTrouble = %d Layouts = {"new","large","small","same"} Emit = %s
INVARIANTS Inv Show
CHECK_DEADLOCK FALSE
"""
U = 1024  # bytes of one unit of BlockIOMC, whose disk block is 4


def rd(rng, x):
    p = x["par"]
    j = rng.choice([0, 0, 1])

    def b(v):  # off by a few bytes, now and then
        return max(0, v * U + j * rng.choice([-1, 0, 0, 1, 511]))
    out, reps = [], x["reps"]
    for r in reps:
        out += [0] if r == 99 else [rng.choice([-1, -2])] if r == -1 else [-100, b(x["adv"])] if r == -100 else [max(1, b(r))]
    return "read %d %d %d %d %d %d %d %d %s" % (b(p["flen"]), p["direct"], p["own"], rng.random() < .3, p["buf"] * U, b(p["off"]), b(p["size"]),
                                               len(out), " ".join(map(str, out)))


def wild(rng):
    """Bigger ones, any numbers."""
    buf = 4096 * rng.choice([1, 2, 3, 8, 64])
    size = rng.choice([0, 1, 100, 4095, 4096, 4097, 10000, 65536, 262144, rng.randrange(300000)])
    off = rng.choice([0, 1, 511, 512, 4095, 4096, 5000, 8192, rng.randrange(100000)])
    d = rng.random() < .5
    flen = off + size + rng.choice([0, 0, 0, 1, 5000, -1, -4096, -size // 2, -size - 5])
    out = []
    for _ in range(rng.randrange(8)):
        out += rng.choice([[0], [0], [rng.choice([1, 512, 4096, rng.randrange(1, 9000)])] if not d or rng.random() < .2 else [0], [-1] if rng.random() < .1 else [0],
                           [-100, rng.randrange(size + 1)] if rng.random() < .5 else [0]])
    return "read %d %d %d %d %d %d %d %d %s" % (max(0, flen), d, rng.random() < .3, rng.random() < .3, buf, off, size, len(out), " ".join(map(str, out)))


def wr(rng, x, scale=None):
    s = scale or rng.choice([1, 1, 7, 1000, 4096, 50000])
    p = x["par"]
    f = x["fsize"] * s
    waslen = {"new": 0, "large": f + rng.choice([1, s, 5000]), "small": max(0, f - rng.choice([1, s, f])), "same": f}[p["was"]]
    out = ["write", f, int(p["pre"]), int(p["mustsync"]), p["was"], waslen, int(rng.random() < .03), rng.choice(["-1", "0", "0.00001", "0.5"]), len(x["bs"])]
    for b in x["bs"]:
        out += [b["off"] * s, b["size"] * s]
    out.append(len(x["ops"]))
    for o in x["ops"]:
        a = o["ans"]
        out += [o["op"], o["b"], o["n"] * s, len(a)] + [k * s if k > 0 else k for k in a]
    return " ".join(map(str, out))


def pick(rng, l, n):
    return l if len(l) <= n else rng.sample(l, n)


def run(c):
    rng = c.rng
    t = c.thorough
    r = judge.cases(c, "BlockIOMC", READ % (4, "0,2,4,7,9,12", "0,1,4,6", "0,1,3,5,8", "4,8", 1, "TRUE"))
    v = vlib.tlc_or_die("BlockIOMC", READ % (3, "0,1,2,3,4,5,6,7,8,9", "0,1,2,3,4,5", "0,1,2,3,4,5,6", "3,6", 2 if t else 1, "FALSE"))
    c.tlc_counts(v)
    w = judge.cases(c, "BlockWMC", WRITE % (3, 2, 1, "TRUE"), simulate=["num=%d" % (9000 if not t else 200000)], args=["-depth", "40", "-seed", str(vlib.SEED)])
    v = vlib.tlc_or_die("BlockWMC", WRITE % (3 if not t else 4, 2, 1 if not t else 2, "FALSE") + "VIEW Vw\n")
    c.tlc_counts(v)
    lines = [rd(rng, x) for x in pick(rng, r, 12000 if not t else 10**6)]
    lines += [wild(rng) for _ in range(2000 if not t else 40000)]
    lines += [wr(rng, x) for x in w]
    exe = vlib.build("blockio", vlib.hsrc("blockio.cpp"), with_lib=True)
    n = -(-len(lines) // vlib.JOBS)
    out = []
    with vlib.Scratch("blockio") as d, cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for k, (o, rc, err) in zip(range(0, len(lines), n), ex.map(lambda k: vlib.run_lines(exe, lines[k:k + n], args=[d]), range(0, len(lines), n))):
            m = len(lines[k:k + n])
            out += o[:m] + ['{"kind":"crash"}'] * (m - len(o))
    recs = [json.loads(o) for o in out]
    seen = set()
    for k in judge.judge(c, "BlockIO", recs):
        x = recs[k]
        key = x["kind"] + (":" + ",".join(sorted({p["end"] for p in x["passes"]})) if x["kind"] == "read" else "")
        key = "%s of %s" % (key, lines[k].split()[0])
        if key not in seen:
            seen.add(key)
            c.violation(key, "blockio DIR <<< '%s'\n%s" % (lines[k], out[k]))
    c.add("reads", sum(x["kind"] == "read" for x in recs))
    c.add("writes", sum(x["kind"] == "write" for x in recs))
    c.add("reads_finished", sum(x["kind"] == "read" and x["passes"][-1]["end"] == "fin" for x in recs))
    c.add("reads_direct", sum(x["kind"] == "read" and x["direct"] for x in recs))
    c.add("writes_failed", sum(x["kind"] == "write" and any(b["failed"] for b in x["blocks"]) for x in recs))
    for k in (0, len(lines) // 2, -1):
        c.sample(lines[k][:300])
    c.assumptions = ["write() of a regular file does not answer 0 for ever"]
