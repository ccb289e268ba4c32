"""C14: tampering with authenticated encryption (spec/Auth.tla, spec/Crypt.tla)."""
import json
import e2e
import judge
import lin
import tx
LEVEL = "trace_validation"
KNOWN = [
 ("endtag", "np=2 files=srcf_0:1500 seg=3000 cap=4096 rstdrop=0 o.encryption_type=aes128gcm o.encryption_tag_interval_bytes=4194304 o.block_size_mbytes=0.0009765625 faults=1:0:1:4008:corrupt:0,1:0:1:10:dup1:0,1:0:0:80:corrupt:0 seed=642180824 mode=0 stay=30 gap=0 changes=3 horizon=500"),
 ("earlywrite", "np=1 files=srcf_0:10 seg=3000 cap=65536 rstdrop=0 o.encryption_type=aes128gcm o.encryption_tag_interval_bytes=4096 o.block_size_mbytes=0.001953125 faults=0:0:0:60:corrupt:0 seed=859833549 mode=0 stay=60 gap=0 changes=2 horizon=500"),
]


# ------------------------------------------------ two sockets and the bytes between them
MC = """SPECIFICATION Spec
CONSTANTS Ts = {%s} Ns = {%s} Rounds = 2 Skips = {%s} Reads = {1,2,4}
INVARIANTS Allowed Whole Emit
CHECK_DEADLOCK FALSE
"""


def wirelen(k):
    t = k["tag"] if k["enc"] == "gcm" else 0
    i = k["n"] - 1
    tags = i // t if t else 0
    ivs = tags // max(1, k["iv"] // t) if t and k["iv"] else 0
    return (0 if k["enc"] == "none" else 23) + k["n"] + 16 * (tags + ivs) + (16 if k["enc"] == "gcm" else 0)


def stream(rng):
    """A stream, and how it is cut and read."""
    k = dict(enc=rng.choice(["gcm"] * 6 + ["ctr", "none"]), tag=rng.choice([1, 2, 3, 7, 16, 50, 100, 1000, 5000]), tamper=dict(at=0, kind="none"))
    k["iv"] = rng.choice([0, 0, 1, k["tag"], 2 * k["tag"], 3 * k["tag"] + 1, 500])
    ws = [rng.choice([1, 2, 5, k["tag"], k["tag"] + 1, 2 * k["tag"], rng.randrange(1, 300)]) for _ in range(rng.choice([1, 2, 4, 6]))]
    ws = [min(w, 700) for w in ws][:2 if k["tag"] < 4 else 6]
    k["ws"] = [sum(ws[:i + 1]) for i in range(len(ws))]
    k["n"] = sum(ws)
    return k


def reads(rng, k):
    ops, left = [], k["n"]
    for _ in range(rng.choice([1, 2, 4, 8])):
        ops.append(["d", rng.choice([1, 15, 16, 17, 23, 40, 100, rng.randrange(1, 400)])])
        for _ in range(rng.choice([1, 1, 2])):
            ops.append(["r", rng.choice([1, 1, 2, 5, 16, k["tag"], 2 * k["tag"], 400]), rng.random() < .5])
    ops.append(["d", 1000000])
    for _ in range(rng.choice([1, 1, 3, 12])):
        ops.append(["r", rng.choice([1, 7, k["tag"], 300, 2000]), False])
    return ops + [["e"]]


def exact(k):
    """Everything arrives and is read."""
    rest = k["n"]
    ops = [["d", 1000000]]
    return ops + [["r", rest, True], ["e"]]


def sockets(c):
    rng, cs = c.rng, []
    for k in judge.cases(c, "CryptMC", MC % (("1,2,3", "1,3,4", "1,2,4,99") if c.thorough else ("1,2", "3", "1,2,99"))):
        cs.append(dict(k, enc="gcm", tamper=dict(at=0, kind="none")))
    for _ in range(4000 if not c.thorough else 60000):
        k = stream(rng)
        k["ops"] = exact(k) if rng.random() < .3 else reads(rng, k)
        cs.append(k)
    for _ in range(60 if not c.thorough else 600):  # every byte of some streams
        k = stream(rng)
        k["enc"] = "gcm"
        k["n"] = k["ws"][-1]
        for at in range(wirelen(k)):
            if k["n"] < 60 or rng.random() < .05:
                cs.append(dict(k, tamper=dict(at=at, kind=rng.choice(["flip", "flip", "drop", "dup", "cut"])),
                               ops=exact(k) if rng.random() < .3 else reads(rng, k)))
    exe = lin.build("crypt", ["crypt.cpp"])
    lines = []
    for k in cs:
        ws = [b - a for a, b in zip([0] + k["ws"], k["ws"])]
        lines.append("enc=%s tag=%d iv=%d w=%s tamper=%s ops=%s" % (
            k["enc"], k["tag"], k["iv"], ",".join(map(str, ws)),
            "none" if k["tamper"]["kind"] == "none" else "%d:%s" % (k["tamper"]["at"], k["tamper"]["kind"]),
            ",".join(":".join(str(int(y)) if isinstance(y, (bool, int)) else y for y in o) for o in k["ops"])))
    res = lin.run_pool(exe, lines)
    recs, where = [], []
    for i, k in enumerate(cs):
        out, st = res[i]
        r = [l for l in out if l.startswith("R ")]
        if st != 0 or not r:
            c.violation("sockets:crash", "%s\nended with %s" % (lines[i], st))
            continue
        x = json.loads(r[0][2:])
        recs.append(dict(k, **x))
        if k["tamper"]["kind"] != "none":
            recs[-1]["tamper"] = dict(k["tamper"], at=x["diff"])
        where.append(i)
    for j in judge.judge(c, "Crypt", recs)[:5]:
        c.violation("sockets", "%s\n%s" % (lines[where[j]], json.dumps(recs[j])))
    c.add("streams", len(recs))
    c.add("streams_altered", sum(k["tamper"]["kind"] != "none" for k in cs))


def run(c):
    sockets(c)
    tx.run(c, [e2e.Fixed(l, tag, enc=True, gcm=True, lax=True, corrupt=True, strict=True) for tag, l in KNOWN])
