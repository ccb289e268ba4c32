"""Checks decided on whole transfers of the real code in the simulator."""
import time
import e2e
import fam

# id -> what it draws: families with weights, transfers of a quick run, further trace modules, scenarios of known findings
PLAN = {
 "C01": (dict(net=3, many=2, repeated=1, early=2, gone=2, ver=1, taken=1), 9000, ()),
 "C02": (dict(source=3, disk=2, abort=1, net=2, gone=1, stranger=1, taken=1), 8000, ()),
 "C07": (dict(sessions=1), 3000, ("LogTrace",)),
 "C08": (dict(sessions=4, resumed=1), 3000, ("LogTrace",)),
 "C11": (dict(ver=3, verfault=2), 8000, ()),
 "C13": (dict(gone=3, many=2, early=2, verq=1, taken=1), 9000, ()),
 "C14": (dict(tampered=1), 9000, ("AuthTrace",)),
 "C15": (dict(altered=4, source=1), 8000, ()),
 "C19": (dict(abort=5, disk=1, verabort=1), 8000, ("AbortTrace",)),
 "C20": (dict(dest=1), 6000, ("DestTrace",)),
 "C21": (dict(stranger=4, badpeer=2), 8000, ("AdmitTrace",)),
 "C23": (dict(bounded=4, repeated=2, gone=1), 8000, ()),
}
# families whose traces the transfer specification does not judge
ONLY = {"C14", "C20"}
EXTRA = {"C14": [([(fam.ivs, 1)], 1500, ())], "C11": [([(fam.refused, 1)], 800, ("AdmitTrace",))]}
BATCH = 3000


def families(pid):
    return [(getattr(fam, f), w) for f, w in PLAN[pid][0].items() if hasattr(fam, f)]


def run(c, demos=()):
    weights, n, mods = PLAN[c.pid]
    t0 = time.time()
    done = 0
    if demos:
        e2e.run(c, list(demos), module=tuple(mods) if c.pid in ONLY else ("TransferTrace",))
    for fams, k, m in EXTRA.get(c.pid, ()):
        e2e.run(c, fam.pick(c.rng, k * (10 if c.thorough else 1), *fams), module=("TransferTrace",) + m)
    while done < n or c.thorough and time.time() - t0 < 600:
        k = min(BATCH, n - done) if done < n else BATCH
        e2e.run(c, fam.pick(c.rng, k, *families(c.pid)), module=(() if c.pid in ONLY else ("TransferTrace",)) + tuple(mods))
        done += k
        if len(c.violations) > 50:
            break
    c.cov["families"] = sorted(weights)
    c.assumptions = ["the folly stand-in, the simulated network, clock and disk failures behave like the real ones",
                     "one thread runs at a time (sequentially consistent memory)"]
