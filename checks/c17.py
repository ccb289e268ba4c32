"""C17: quotas (spec/Quota.tla)."""
import lin
LEVEL = "model_checking"
CFG = """SPECIFICATION MSpec
CONSTANT Len2 = %s
INVARIANTS Inv MPrint
"""


def op(rng, calm):
    k, w, i = rng.choice("ssr"), rng.choice("aab"), rng.randrange(1, 5)
    x = rng.random()
    if x < .4:
        return ["create", k, w, i]
    if x < .55:
        return ["release", k, w, i]
    if x < .6:
        return ["finish", k, w, i]
    l = [["all", k, w], ["stale", k, w], ["stale", k, w], ["has", k, w, i], ["ids", w], ["many", k, w], ["count"], ["count"], ["room", k, w],
         ["glim", k, rng.randrange(4)], ["nlim", k, w, rng.randrange(4)], ["reg", w], ["dereg", w], ["strict", rng.randrange(2)]]
    return rng.choice(l + [["shutdown"]] * calm)


def run(c):
    rng = c.rng
    cases = lin.model_cases(c, "QuotaModel", CFG % "FALSE")
    if c.thorough:
        cases += lin.model_cases(c, "QuotaModel", CFG % "TRUE")
    for _ in range(1500 if not c.thorough else 20000):
        n = rng.choice([1, 1, 1, 2, 3])
        cfg = dict(gsl=rng.choice([0, 1, 3, 4]), grl=rng.choice([0, 1, 2]), nsl=rng.choice([0, 1, 2, 3]), nrl=rng.choice([0, 1, 1, 2]))
        prog = [[op(rng, n == 1) for _ in range({1: 25, 2: 5, 3: 3}[n])] for _ in range(n)]
        cases.append(dict(cfg=cfg, prog=prog, kind="quota"))
    exe = lin.build("quota", ["quota.cpp"])
    lin.explore(c, exe, cases, "QuotaTrace", per_case=6 if not c.thorough else 40, runs=6000 if not c.thorough else 100000,
                sched_over=lambda r, x: dict(stay=r.choice([0, 30, 60]), gap=r.choice([0, 3, 10])))
    c.assumptions = ["the objects created are never started"]
