"""C05: opening files for blocks (spec/FileOpen.tla)."""
import lin
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION MSpec
%s
"""
NAMES = ["f1", "f2", "d/f3", "d/e/f4", "x/f5"]


def config(r):
    res = r.randrange(2)
    z = lambda: r.choice([-1, -1, 0, 2, 3, 5, 8])
    return dict(ow=r.randrange(2), res=res, tree=r.randrange(2) * res, pre=r.randrange(2), f1=z(), f2=z(), f3=z(), f4=z())


def single(r):
    """Everything, one thread."""
    cfg = config(r)
    prog = []
    for _ in range(r.choice([6, 15])):
        x = r.random()
        f = r.choice(NAMES)
        if x < .45:
            # TOO_SMALL is only said of files no larger than announced
            how = r.choice(["NOT_EXISTS"] * 4 + ["TOO_LARGE", "CORRECT", "DELETE"] + ["TOO_SMALL"] * 2)
            n = r.choice([0, 2, 3, 5, 6, 7, 9])
            prog.append(["open", f, NAMES.index(f) + r.choice([0, 0, 0, 1]) * 5 if f != "f1" else 0, n, how])
        elif x < .65:
            prog.append(["write", r.choice([0, 1, 2, 4]), r.randrange(1, 7), r.choice([1, 2])])
        elif x < .72:
            prog.append(["blk", r.randrange(10)])
        elif x < .8:
            prog.append(["clear"])
        elif x < .84:
            prog.append(["rmdir"])
        elif x < .95:
            prog.append(["read", f])
        else:
            prog.append(["log"])
    return dict(cfg=cfg, prog=[prog + [["read", f] for f in NAMES] + [["log"], ["fds"]]], kind="fileopen")


def several(r):
    """Blocks of a few files spread over threads."""
    cfg = config(r)
    n = r.choice([2, 3, 3])
    files = r.sample(NAMES, r.choice([1, 1, 2, 3]))
    info = {}
    for k, f in enumerate(files):
        how = r.choice(["NOT_EXISTS"] * 3 + (["TOO_LARGE", "TOO_SMALL", "CORRECT"] if cfg["res"] else []))
        size = r.choice([2, 3, 5, 6, 6, 7, 9])
        key = "f%d" % (NAMES.index(f) + 1)
        if how in ("TOO_SMALL", "CORRECT") and cfg.get(key, -1) > size:
            cfg[key] = size
        info[f] = (k + 1, size, how)
    prog = [[] for _ in range(n)]
    val = 1
    for f in files:
        for o in range(r.choice([2, 3])):
            q, size, how = info[f]
            t = r.randrange(n)
            prog[t] += [["open", f, q, size, how], ["write", o, val, 1], ["blk", q]]
            val = val % 6 + 1
    prog[0] += [["join"]] + [["read", f] for f in files] + [["log"], ["fds"]]
    for t in range(1, n):
        prog[t].append(["bye"])
    return dict(cfg=cfg, prog=prog, kind="fileopen")


def run(c):
    r = c.rng
    c.tlc_counts(vlib.tlc_or_die("FileOpenModel", CFG % "INVARIANT Inv", workers=vlib.JOBS))
    cases = lin.model_cases(c, "FileOpenModel", CFG % "INVARIANT MPrint\nCONSTRAINT Stop")
    if not c.thorough:
        cases = r.sample(cases, min(len(cases), 700))
    cases += [several(r) for _ in range(900 if not c.thorough else 12000)]
    cases += [single(r) for _ in range(900 if not c.thorough else 12000)]
    exe = lin.build("fileopen", ["fileopen.cpp"])
    if "nolog" in vlib.sh([exe], timeout=60).stdout:
        for x in cases:
            x["cfg"]["res"] = x["cfg"]["tree"] = 0
        c.assumptions = ["the log cannot be watched in this tree: no sessions that resume"]
    with vlib.Scratch("fo") as d:
        lin.explore(c, exe, cases, "FileOpenTrace", per_case=4 if not c.thorough else 20, runs=6000 if not c.thorough else 80000, dirarg=d,
                    sched_over=lambda r, x: dict(stay=r.choice([0, 30, 60]), gap=r.choice([0, 3, 10, 30])))
    c.assumptions = list(c.assumptions or []) + ["a file said to be no larger than announced (to be resumed) is not larger on the disk", "the file system's own calls are atomic"]
