"""Records of what the real code did, judged by TLC: a specification module
defines Ok(r), true of the records it allows."""
import concurrent.futures as cf
import json
import os
import vlib

TEXT = """---- MODULE JudgeRun ----
EXTENDS %s, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\\ n' = n + 1 /\\ (Ok(Recs[n + 1]) \\/ PrintT(<<"BAD", ToJson(n)>>))
Spec == Init /\\ [][Next]_n
Done == n = Len(Recs) => PrintT(<<"DONE", ToJson(n)>>)
====
"""


def judge(c, module, recs, chunk=None, timeout=800, extra=""):
    """Indices of the records the specification does not allow."""
    chunk = chunk or min(4000, max(50, -(-len(recs) // vlib.JOBS)))

    def one(lo):
        part = recs[lo:lo + chunk]
        with vlib.Scratch("judge") as d:
            f = os.path.join(d, "recs.json")
            json.dump(part, open(f, "w"))
            t = os.path.join(d, "JudgeRun.tla")
            open(t, "w").write(TEXT % module)
            r = vlib.tlc("JudgeRun", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Done\n" + extra, workers=1,
                         env={"RECS": f}, timeout=timeout, heap="2g", files=[t])
        if not r.ok or vlib.tlc_prints(r, "DONE") != [len(part)]:
            raise vlib.CheckError("%s: TLC ended with %d\n%s" % (module, r.rc, r.out[-3000:]))
        return lo, vlib.tlc_prints(r, "BAD"), r
    bad = []
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for lo, b, r in ex.map(one, range(0, len(recs), chunk)):
            c.tlc_counts(r)
            bad += [lo + k for k in b]
    c.add("records_judged", len(recs))
    return bad


def cases(c, module, cfg, tag="CASE", **kw):
    """Inputs enumerated by TLC from a specification."""
    r = vlib.tlc_or_die(module, cfg, workers=1, **kw)
    c.tlc_counts(r)
    return vlib.tlc_prints(r, tag)
