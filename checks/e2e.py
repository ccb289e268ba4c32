"""Whole transfers in the simulator, checked by TLC against spec/Transfer.tla."""
import json
import os
import vlib
import lin

DROP = {"w", "fsy", "start", "s_data", "logsync", "d_op", "r_listen", "r_init", "r_start", "s_start"}


def build():
    return vlib.build("vsim", vlib.hsrc("vsched.cpp", "vnet.cpp", "vfs.cpp", "vsim.cpp"), link=["-rdynamic"],
                      lib_extra=["-DGOOGLE_STRIP_LOG=3"])


def parse(out):
    """Output of one scenario, by phase."""
    ph, cur = [], None
    for l in out:
        if l.startswith("PHASE "):
            cur = dict(ev=[], stuck=None, crash=False, status=None, dst=[])
            ph.append(cur)
        elif l.startswith("EV "):
            try:
                cur["ev"] = json.loads(l[3:])
            except ValueError:
                cur["stuck"] = "STUCK the process ended in the middle of its report"
        elif l.startswith("STUCK"):
            cur["stuck"] = l
        elif l.startswith("CRASH"):
            cur["crash"] = True
        elif l.startswith("STATUS "):
            cur["status"] = int(l[7:])
        elif l.startswith("DST "):
            try:
                cur["dst"] = json.loads(l[4:])
            except ValueError:
                cur["stuck"] = "STUCK the process ended in the middle of its report: %s" % l[:300]
    if not ph:
        ph.append(dict(ev=[], stuck="STUCK the process did not start", crash=False, status=None, dst=[]))
    return ph


class Scn:
    """One scenario: simulator words and what the specification is told."""

    def __init__(self, np=2, files=(("srcf_0", 3000),), **kw):
        self.w = dict(np=np, files=",".join("%s:%d" % (f[0], f[1]) + (":%d" % f[2] if len(f) > 2 else "") for f in files))
        self.cfg = dict(np=np, files=[dict(name=f[0], size=f[1]) for f in files], block=1024, chk=False, wantchk=False, gcm=False,
                        enc=False, wantres=False, res=False, v=32, sv=32, rv=32, maxnp=3, maxret=20, taken=[], clean=True, bad=[], corrupt=False,
                        lax=False, full=False, keep=False, ends=True, limit=1000, own=True, must="none")
        self.cfg["del"] = False
        self.faults = []
        self.tag = ""

    def opt(self, **kw):
        for k, v in kw.items():
            self.w["o." + k] = v
        return self

    def fault(self, p, nth, d, off, kind, ms=0):
        self.faults.append("%d:%d:%d:%d:%s:%d" % (p, nth, d, off, kind, ms))
        self.cfg["clean"] = False
        return self

    def words(self, **over):
        w = dict(self.w)
        w.update(over)
        return w

    def line(self, sched):
        w = dict(self.w)
        if self.faults:
            w["faults"] = ",".join(self.faults)
        return " ".join("%s=%s" % x for x in w.items()) + " " + sched


class Fixed(Scn):
    """One scenario, schedule and all, that shows a known finding."""

    def __init__(self, line, tag, **cfg):
        w = dict(x.split("=", 1) for x in line.split())
        fs = [f.split(":") for f in w["files"].split(",")]
        Scn.__init__(self, int(w["np"]), [(f[0], int(f[1])) for f in fs])
        self.fixed, self.tag = line, tag
        self.cfg.update(clean=False, ends=False, **cfg)

    def line(self, sched):
        return self.fixed


SIZES = [0, 1, 10, 500, 1023, 1024, 1025, 1500, 2048, 3000, 5000]


def rand_files(rng, most=4, sizes=SIZES):
    return [("srcf_%d" % k if rng.random() < .8 else "srcf_d%d/srcf_%d" % (k % 2, k), rng.choice(sizes))
            for k in range(rng.randint(1, most))]


def rand_env(s, rng):
    s.w.update(seg=rng.choice([0, 0, 100, 3000]), cap=rng.choice([65536, 4096, 1000]), rstdrop=rng.choice([0, 1]))
    return s


def rand_enc(s, rng, chk=.3, gcm=.2, ctr=.1):
    if rng.random() < chk:
        checksum(s)
    e = rng.random()
    if e < gcm:
        encrypt(s, "aes128gcm", rng.choice([700, 1000, 4096, 4 << 20]))
    elif e < gcm + ctr:
        encrypt(s, "aes128ctr")
    return s


def checksum(s):
    s.opt(enable_checksum=1)
    s.cfg["chk"] = s.cfg["wantchk"] = True
    return s


def encrypt(s, kind, interval=None):
    s.opt(encryption_type=kind)
    if interval:
        s.opt(encryption_tag_interval_bytes=interval)
    s.cfg["enc"] = True
    s.cfg["gcm"] = kind == "aes128gcm"
    return s


def resume(s):
    s.opt(enable_download_resumption=1)
    s.cfg["res"] = s.cfg["wantres"] = True
    return s


def versions(s, sv, rv):
    """Both ends' protocol versions; call after the options are chosen."""
    s.w.update(sv=sv, rv=rv)
    v = min(sv, rv)
    s.cfg.update(sv=sv, rv=rv, v=v, chk=s.cfg["wantchk"] and v >= 12, res=s.cfg["wantres"] and v >= 13)
    kind = s.w.get("o.encryption_type") if rv >= 23 else None
    s.cfg.update(enc=kind is not None, gcm=kind == "aes128gcm")
    return s


def blocks(s, kb):
    """Block size in KB (0: whole files)."""
    s.opt(block_size_mbytes=kb / 1024.0)
    s.cfg["block"] = int(kb * 1024)
    return s


def rand_faults(s, rng, n=None, kinds=("rst", "rst", "fin", "refuse", "none"), offs=(0, 1, 50, 300, 600, 1000, 2000, 4000, 6000)):
    for k in range(rng.choice([1, 1, 2, 3, 4]) if n is None else n):
        s.fault(rng.randrange(s.cfg["np"]), rng.choice([0, 0, 0, 1, 1, 2]), rng.choice([0, 0, 1]),
                rng.choice(offs) + rng.randrange(40), rng.choice(kinds), rng.choice([0, 0, 300, 6000, 30000]))
    return s


# ---------------------------------------------------------------- running
def simulate(exe, lines, timeout=700):
    with vlib.Scratch("vs") as d:
        res = lin.run_pool(exe, lines, args=[d], timeout=timeout)
    return [(parse(res[i][0]), res[i][1]) for i in range(len(lines))]


# modules that look at what is done to the destination
OPS = {"AdmitTrace", "AuthTrace", "DestTrace"}


def trace(cfg, phase, ops=False):
    ev = [e for e in phase["ev"] if e["e"] not in DROP
          or e["e"] == "d_op" and (ops or e["op"] == "logtrunc" and e["arg"] == 0)]
    if not phase["crash"]:
        ev.append(dict(e="dst", files=phase["dst"]))
    return dict(cfg=cfg, ev=ev)


def show(e):
    return " ".join("%s" % v if k in ("e", "m") else "%s=%s" % (k, json.dumps(v)) for k, v in e.items())


def explain(tr, upto, line, full=False):
    ev = tr["ev"]
    lo = 0 if full else max(0, upto - 40)
    s = "scenario: %s\n" % line
    for k in range(lo, min(len(ev), upto + 8)):
        s += "%s %3d %s\n" % (">>" if k == upto else "  ", k, show(ev[k]))
    return s + "the specification has no behaviour with the event marked >>\n"


LOGEV = {"start", "w", "fsy", "d_op", "d_fail", "log", "crash"}


def history(s, phases):
    """What happens to a directory and its log over all sessions."""
    ev = []
    for k, ph in enumerate(phases):
        for e in ph["ev"]:
            if e["e"] == "start":
                ev.append(dict(e, **s.starts[k]))
            elif e["e"] in LOGEV or e["e"] == "r_msg" and e["m"] in ("LIST", "CHUNKS"):
                ev.append(e)
    return dict(cfg=dict(np=s.cfg["np"]), ev=ev)


def logs(c, scns, lines, dirs, key):
    reach = lin.validate(c, "LogTrace", [d for _, d in dirs])
    for k, (i, tr) in enumerate(dirs):
        if reach[k] < len(tr["ev"]):
            e = tr["ev"][reach[k]]
            c.violation("%s:LogTrace:%s:%s" % (scns[i].tag or key, e["e"], e.get("m", e.get("op", ""))),
                        "LogTrace\n%s" % explain(tr, reach[k], lines[i], 1))
    c.add("directory_histories_validated", len(dirs))


def run(c, scns, module=("TransferTrace",), exe=None, post=None, key="transfer", sched=None, extra=""):
    """Simulates the scenarios and validates every trace; post(scn, phases) gives further violations."""
    exe = exe or build()
    lines = [s.line(lin.sched_words(c.rng, gap=0, **(sched or {}))) for s in scns]
    res = simulate(exe, lines)
    traces, withops, where, dirs = [], [], [], []
    for i, s in enumerate(scns):
        phases, st = res[i]
        if hasattr(s, "starts"):
            dirs.append((i, history(s, phases)))
        for k, ph in enumerate(phases):
            if ph["stuck"] or (ph["status"] != 0 and not ph["crash"]):
                c.violation("%s:stuck" % (s.tag or key), "scenario: %s\nphase %d ended with %s (status %s)\n%s" % (
                    lines[i], k, ph["stuck"], ph["status"], "\n".join(show(e) for e in ph["ev"][-30:])))
                continue
            cfg = s.cfg if not hasattr(s, "cfgs") else s.cfgs[k]
            if cfg is None:
                continue
            cfg = dict(cfg)
            traces.append(trace(cfg, ph))
            withops.append(trace(cfg, ph, True))
            where.append(i)
        if post:
            for k, d in post(s, phases) or ():
                c.violation("%s:%s" % (s.tag or key, k), "scenario: %s\n%s" % (lines[i], d))
    codes = {}
    for k, tr in enumerate(traces):
        for e in tr["ev"]:
            if e["e"] in ("s_end", "r_end"):
                x = "%s %s" % ("sender" if e["e"] == "s_end" else "receiver", e["code"])
                codes[x] = codes.get(x, 0) + 1
    for m in module:
        if m == "LogTrace":
            logs(c, scns, lines, dirs, key)
            continue
        used = withops if m in OPS else traces
        reach = lin.validate(c, m, used, extra)
        for k, tr in enumerate(used):
            if reach[k] < len(tr["ev"]):
                e = tr["ev"][reach[k]]
                c.violation("%s%s:%s:%s" % (scns[where[k]].tag or key, "" if m == "TransferTrace" else ":" + m, e["e"], e.get("m", "")),
                            "%s\n%s" % (m, explain(tr, reach[k], lines[where[k]], 1)))
    c.add("transfers_simulated", len(lines))
    c.add("traces_validated_against_impl", len(traces))
    c.add("events_validated", sum(len(t["ev"]) for t in traces))
    oc = c.cov.setdefault("outcomes", {})
    for x, n in codes.items():
        oc[x] = oc.get(x, 0) + n
    if traces:
        k = c.rng.randrange(len(traces))
        c.sample({"scenario": lines[where[k]], "events": len(traces[k]["ev"]), "first": [show(e) for e in traces[k]["ev"][:8]]})
    return lines, res, traces
