"""C16: throttling (spec/Throttle.tla, model ThrottleMC.tla)."""
import json
import judge
import lin
import vlib
LEVEL = "trace_validation"
MC = """SPECIFICATION Spec
CONSTANTS Threads = {%s} Avg = %d Peak = %d Burst = %d Sizes = {%s} MaxT = %d MaxN = %d
INVARIANT Bound
CHECK_DEADLOCK FALSE
"""


def rates(rng):
    avg = rng.choice([-1, 0, 100, 1000, 1000, 5000])
    peak = rng.choice([-1, 0, 0, 500, 1000, 1500, 2000, 6000])
    burst = rng.choice([0, 0, 1, 50, 400, 3000])
    return avg, peak, burst


def program(rng, single, first, nthr):
    ops = [["start"]]
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(rng.choice([4, 10, 20])):
            x = rng.random()
            if x < .72:
                b = rng.choice([1, 10, single, rng.randrange(1, single + 1), rng.randrange(1, 3 * single)])
                ops.append(["req", b] + (["c"] if rng.random() < .3 else []))
            elif x < .9:
                ops.append(["sleep", rng.choice([1, 5, 50, 400, 3000])])
            elif x < .95:
                ops.append(["get"])
            elif first or rng.random() < .3:
                ops.append(["set"] + list(rates(rng)) + (["o"] if rng.random() < .5 else []))
        ops.append(["end"])
        if rng.random() < .6:
            ops.append(["sleep", rng.choice([1, 1000, 9000])])
        ops.append(["start"])
    return ops[:-1]


def bursts(rng):
    """Long pauses, then many small requests: what a full bucket gives."""
    peak = rng.choice([500, 1000, 6000])
    burst = rng.choice([50, 100, 400])
    b = max(1, burst // rng.choice([10, 20]))
    ops = [["start"]]
    if rng.random() < .5:
        ops.append(["req", b])
    for _ in range(rng.choice([1, 2])):
        ops.append(["sleep", rng.choice([400, 3000, 9000])])
        ops += [["req", b] for _ in range(rng.choice([30, 60]))]
    ops.append(["end"])
    avg = -1 if rng.random() < .7 else rng.choice([peak // 2, peak])
    return (avg, peak, burst), 500, [ops]


def run(c):
    rng = c.rng
    for a in [("1,2", 2, 3, 4, "1,3", 6, 6), ("1,2", 0, 2, 3, "1,2", 6, 6), ("1", 1, 3, 2, "1,4", 12, 9)] + \
            ([("1,2", 2, 3, 4, "1,3", 9, 7), ("1,2,3", 2, 4, 3, "1,2", 5, 6)] if c.thorough else []):
        c.tlc_counts(vlib.tlc_or_die("ThrottleMC", MC % a))
    exe = lin.build("throttle", ["throttle.cpp"])
    lines, cfgs = [], []
    for _ in range(2400 if not c.thorough else 60000):
        n = rng.choice([1, 1, 2, 3])
        avg, peak, burst = rates(rng)
        single = rng.choice([10, 100, 500])
        prog = [program(rng, single, t == 0, n) for t in range(n)]
        if rng.random() < .08:
            (avg, peak, burst), single, prog = bursts(rng)
            n = 1
        cfgs.append((dict(avg=avg, peak=peak, burst=burst, nthr=n), prog))
        lines.append("avg=%d peak=%d burst=%d single=%d log=%d %s %s" % (
            avg, peak, burst, single, rng.choice([0, 0, 100]), " ".join("t%d=%s" % (t, lin.words(p)) for t, p in enumerate(prog)),
            lin.sched_words(rng, gap=rng.choice([0, 0, 10, 30]))))
    res = lin.run_pool(exe, lines)
    recs, granted = [], 0
    for k, (cfg, prog) in enumerate(cfgs):
        out, st = res[k]
        evs = [l for l in out if l.startswith("EV ")]
        ev = json.loads(evs[-1][3:]) if evs else []
        ops, open_ = [], {}
        for i, e in enumerate(ev):
            if e["k"] == "c":
                open_[e["t"]] = (i, e["o"])
            else:
                ci, o = open_.pop(e["t"])
                r = dict(k=o[0], t=e["t"], c=ci, r=i, b=0, t0=e["v"][0], t1=e["v"][1], avg=0, peak=0, burst=0, got=[0, 0, 0])
                if o[0] == "req":
                    r["b"] = o[1]
                    granted += 1
                elif o[0] == "set":
                    r.update(avg=o[1], peak=o[2], burst=o[3])
                elif o[0] == "get":
                    r["got"] = e["v"][2:]
                if o[0] != "sleep":
                    ops.append(r)
        t0 = min([o["t0"] for o in ops] or [0])
        for o in ops:
            o["t0"] -= t0
            o["t1"] -= t0
        recs.append(dict(cfg=cfg, ops=ops, alive=st == 0 and not any(l.startswith("STUCK") for l in out)))
    seen = set()
    for k in judge.judge(c, "Throttle", recs):
        key = "rates" if recs[k]["alive"] else "stuck"
        if key not in seen or len(seen) < 5:
            seen.add(key)
            c.violation(key, "%s\n%s" % (lines[k], "\n".join(json.dumps(o) for o in recs[k]["ops"])))
    c.add("traces_validated_against_impl", len(recs))
    c.add("requests", granted)
    c.sample(lines[0])
    c.assumptions = ["what is sent is what was asked for, right after the answer (senders: C01's traces)", "virtual time"]
