"""Histories of concurrent operations on the real objects, checked by TLC
against the object's specification (spec/LinTrace.tla)."""
import json
import re
import time
import os
import concurrent.futures as cf
import vlib

TSAN = ["-fsanitize=thread"]


def build(name, srcs, instrument=True, libs=()):
    """Harness and tree under test, with every memory access of the latter a
    possible preemption point of the scheduler."""
    return vlib.build(name, vlib.hsrc("vsched.cpp", *srcs), with_lib=True,
                      lib_extra=TSAN if instrument else (), libs=libs, link=["-rdynamic"])


def model_cases(c, module, cfg):
    r = vlib.tlc(module, cfg, workers=1)
    if not r.ok:
        raise vlib.CheckError("%s: TLC ended with %d\n%s" % (module, r.rc, r.out[-3000:]))
    c.tlc_counts(r)
    out = vlib.tlc_prints(r, "CASE")
    for x in out:  # functions over 0..n-1 come out as objects
        if isinstance(x["prog"], dict):
            x["prog"] = [x["prog"][k] for k in sorted(x["prog"], key=int)]
    return out


def words(prog):
    return ";".join(",".join(str(w) for w in op) for op in prog)


def sched_words(rng, **over):
    k = dict(seed=rng.randrange(1 << 30), mode=rng.choice([0, 0, 1]), stay=rng.choice([0, 30, 60, 85]),
             gap=rng.choice([0, 3, 10, 30, 100]), changes=rng.choice([1, 2, 3, 5]),
             horizon=rng.choice([40, 150, 500]))
    k.update(over)
    return " ".join("%s=%s" % x for x in k.items())


BEGIN = re.compile(r"BEGIN \d+$")
END = re.compile(r"END \d+ -?\d+$")


def run_pool(exe, lines, timeout=600, env=None, args=()):
    """Runs scenarios; returns per scenario (output lines, status)."""
    n = min(vlib.JOBS, 8)
    res, part = {}, {}
    r = vlib.sh([exe] + list(args), timeout=timeout, input="\n".join(lines) + "\n", env=env)
    cur, buf = None, []
    for l in r.stdout.splitlines():
        if BEGIN.match(l):
            cur, buf = int(l[6:]), []
            part[cur] = buf
        elif END.match(l) and cur is not None:
            res[cur] = (buf, int(l.split()[2]))
            cur = None
        else:
            buf.append(l)
    lost = [i for i in range(len(lines)) if i not in res]
    if 0 < len(lost) <= max(3, len(lines) // 20) and r.returncode == 0:
        # the child ended in the middle of a line: it crashed
        for i in lost:
            res[i] = (part.get(i, []), -1)
    if len(res) != len(lines):
        raise vlib.CheckError("%s answered %d of %d scenarios\n%s" % (exe, len(res), len(lines), r.stderr[-2000:]))
    return res


def validate(c, module, traces, extra="", chunk=None, timeout=800):
    """TLC run over recorded histories; returns {index: events explained}."""
    reach = {}
    chunk = chunk or min(2000, max(100, -(-len(traces) // vlib.JOBS)))

    def one(lo):
        part = traces[lo:lo + chunk]
        with vlib.Scratch("tr") as d:
            f = os.path.join(d, "traces.json")
            json.dump(part, open(f, "w"))
            r = vlib.tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Reach\nPOSTCONDITION Report\n" + extra,
                         workers=1, env={"TRACES": f}, timeout=timeout, heap="2g")
        got = vlib.tlc_prints(r, "REACH")
        if not got or not r.ok:
            raise vlib.CheckError("%s: TLC ended with %d\n%s" % (module, r.rc, r.out[-3000:]))
        return lo, got[-1], r
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for lo, got, r in ex.map(one, range(0, len(traces), chunk)):
            c.tlc_counts(r)
            for k, v in enumerate(got):
                reach[lo + k] = v - 1
    return reach


def explain(tr, upto, line):
    ev = tr["ev"]
    s = "scenario: %s\nconfiguration: %s\n" % (line, json.dumps(tr["cfg"]))
    for k, e in enumerate(ev):
        s += "%s %3d thread %d %s %s\n" % (">>" if k == upto else "  ", k, e["t"],
                                           "calls" if e["k"] == "c" else "gets", json.dumps(e.get("o", e.get("v"))))
    return s + "the specification has no behaviour with the event marked >>\n"


def explore(c, exe, cases, module, per_case=8, runs=5000, sched_over=None, cfg_words=None, post=None, extra="",
            limit_traces=60000, dirarg=None):
    """Each case under several schedules; distinct histories go to TLC."""
    lines, meta = [], []
    base = len(cases)
    want = max(runs, base)
    k = 0
    while len(lines) < want and k < max(per_case, 1):
        for case in cases:
            cfg = case["cfg"]
            w = " ".join("%s=%s" % (a, b) for a, b in (cfg_words(case) if cfg_words else cfg).items()
                         if not isinstance(b, (list, dict)))
            progs = " ".join("t%d=%s" % (i, words(pg)) for i, pg in enumerate(case["prog"]))
            over = dict(sched_over(c.rng, case) if sched_over else {})
            if len(case["prog"]) == 1:
                if k > 0:
                    continue
                over.update(gap=0, mode=2)
            lines.append("%s %s %s" % (w, progs, sched_words(c.rng, **over)))
            meta.append(case)
        k += 1
    lines, meta = lines[:want], meta[:want]
    res = run_pool(exe, lines, args=[dirarg] if dirarg else [])
    uniq, traces, tline = {}, [], []
    nstuck = 0
    for i, case in enumerate(meta):
        out, st = res[i]
        evl = [l for l in out if l.startswith("EV ")]
        stuck = [l for l in out if l.startswith("STUCK")]
        ev = json.loads(evl[-1][3:]) if evl else None
        tr = {"cfg": case["cfg"], "ev": ev or []}
        if stuck or st != 0 or ev is None:
            nstuck += 1
            c.violation("stuck:" + module, "%s\nended with status %d: %s\n%s" % (
                lines[i], st, "\n".join(l for l in out if not l.startswith("EV "))[-1500:], explain(tr, -1, lines[i])[:2500]))
            continue
        if post:
            for key, d in post(case, out, ev) or ():
                c.violation(key, "%s\n%s" % (lines[i], d))
        key = vlib.canon(tr)
        if key not in uniq and len(traces) < limit_traces:
            uniq[key] = len(traces)
            traces.append(tr)
            tline.append(lines[i])
    reach = validate(c, module, traces, extra)
    for k, tr in enumerate(traces):
        if reach[k] < len(tr["ev"]):
            e = tr["ev"][reach[k]]
            c.violation("history:%s:%s" % (module, json.dumps(e.get("o", e.get("v")))), explain(tr, reach[k], tline[k]))
    c.add("schedules_run", len(lines))
    c.add("traces_validated_against_impl", len(traces))
    if traces:
        t = traces[len(traces) // 2]
        c.sample({"scenario": tline[len(traces) // 2], "events": len(t["ev"]), "history": t["ev"][:12]})
    return traces
