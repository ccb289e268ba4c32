"""C29: the one-call interface (spec/Api.tla)."""
import lin
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION MSpec
%s
CHECK_DEADLOCK FALSE
"""


def op(rng, n, t):
    w, k, i = rng.choice("aaab"), rng.randrange(1, 3), rng.randrange(1, 4)
    # a receiver is finished by whoever started it
    r = rng.randrange(1, 3) if n == 1 else t + 1
    x = rng.random()
    if x < .55:
        how = rng.choice(["none"] * 5 + ["baddir"] * 2 + ["badreq", "to_1", "to_1", "to_2"])
        return ["send", w, k, i, rng.choice([0, 0, 1] if n == 1 else [0, 1, 1]), how]
    if x < .75:
        return ["rstart", w, r, rng.choice(["ok"] * 5 + ["baddir", "baddir", "badreq"])]
    if x < .9:
        return ["rfinish", w, r]
    if x < .95:
        return ["sleep", rng.choice([1, 30])]
    return ["same"] if n > 1 else ["count"]


def same_dest(rng):
    x = rng.random()
    how = rng.choice(["none"] * 5 + ["baddir"])
    if x < .4:
        return [rng.choice(["send", "go"]), "a", 1, rng.randrange(1, 4), rng.choice([0, 1, 1]), how]
    if x < .6:
        return ["go", "a", 1, rng.randrange(1, 4), 1, "none"]
    return ["alive"] if x < .9 else ["sleep", rng.choice([1, 10, 30])]


def drawn(rng):
    n = rng.choice([1, 2, 2, 3])
    cfg = dict(gsl=rng.choice([0, 0, 1, 2]), grl=rng.choice([0, 0, 1, 2]), nsl=rng.choice([0, 0, 1, 2]), nrl=rng.choice([0, 1, 1, 2]), nthr=n)
    if n > 1 and rng.random() < .5:  # several sends to one destination, each ending another
        prog = [[same_dest(rng) for _ in range(4)] for _ in range(n)]
        if rng.random() < .3:
            prog[0] = [["go", "a", 1, 1, 1, "none"]] + [["alive"]] * 3
        for p in prog:  # one that goes on is done before the next
            for j in range(len(p) - 1, 0, -1):
                if p[j][0] == "go" and any(x[0] == "go" for x in p[:j]):
                    p.insert(j, ["done"])
            p.append(["done"])
    else:
        prog = [[op(rng, n, t) for _ in range({1: 14, 2: 4, 3: 3}[n])] for t in range(n)]
    prog[0] += [["join"]] * (n > 1) + [["count"]]
    # nothing is left behind: every destination is free again
    prog[0] += [["send", w, k, 9, 0, "none"] for w in "ab" for k in (1, 2)] + [["count"]]
    for t in range(1, n):
        prog[t].append(["bye"])
    return dict(cfg=cfg, prog=prog, kind="api")


def run(c):
    rng = c.rng
    c.tlc_counts(vlib.tlc_or_die("ApiModel", CFG % "INVARIANTS Inv AllBack", workers=vlib.JOBS))
    cases = lin.model_cases(c, "ApiModel", CFG % "INVARIANT MPrint\nCONSTRAINT Stop")
    if not c.thorough:
        cases = rng.sample(cases, min(len(cases), 500))
    cases += [drawn(rng) for _ in range(1200 if not c.thorough else 15000)]
    exe = vlib.build("api", vlib.hsrc("vsched.cpp", "vnet.cpp", "vfs.cpp", "api.cpp"), link=["-rdynamic"], lib_extra=["-DGOOGLE_STRIP_LOG=3"])
    with vlib.Scratch("api") as d:
        lin.explore(c, exe, cases, "ApiTrace", per_case=4 if not c.thorough else 30, runs=4000 if not c.thorough else 60000, dirarg=d,
                    sched_over=lambda r, x: dict(stay=r.choice([0, 30, 60, 90]), gap=r.choice([0, 3, 10]), maxsteps=3000000, maxms=3600000))
    c.assumptions = ["network and clock are simulated"]
