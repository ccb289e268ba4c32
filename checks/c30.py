"""C30: the command line tool (spec/Cli.tla), real processes on the loopback network."""
import concurrent.futures as cf
import hashlib
import os
import random
import re
import signal
import socket
import subprocess
import threading
import time
import judge
import vlib
LEVEL = "model_checking"
CFG = "SPECIFICATION Spec\nINVARIANTS Sensible Dump\nCHECK_DEADLOCK FALSE\n"
NAMES = ["a", "b", "d/c", "d/e/f", "with space", "x.y"]

LOCK, USED, HUNG = threading.Lock(), set(), []


def tree(root):
    res = []
    for p, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            n = os.path.relpath(q, root)
            if n == ".wdt.log":
                continue
            b = open(q, "rb").read()
            res.append([n, len(b), ident(b)])
    return sorted(res)


def ident(b):
    return int(hashlib.md5(b).hexdigest()[:7], 16)


def put(root, name, b):
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "wb").write(b)


class Proc:
    def __init__(self, args, d, name, inp=b"", pipe=False):
        self.err = os.path.join(d, name + ".err")
        self.out = os.path.join(d, name + ".out")
        self.inp = os.path.join(d, name + ".in")
        open(self.inp, "wb").write(inp)
        self.t0 = time.time()
        out = open(self.out, "wb")
        self.eof = threading.Event()
        if pipe:
            r, w = os.pipe()
            threading.Thread(target=self.copy, args=(r, out), daemon=True).start()
            out = w
        self.p = subprocess.Popen(args, stdin=open(self.inp, "rb"), stdout=out, stderr=open(self.err, "wb"), cwd=d, start_new_session=True)
        if pipe:
            os.close(w)

    def copy(self, r, out):
        while b := os.read(r, 65536):
            out.write(b)
            out.flush()
        os.close(r)
        self.eof.set()

    def end(self, limit):
        try:
            rc = self.p.wait(limit)
            return rc if rc >= 0 else 256 - rc
        except subprocess.TimeoutExpired:
            return None

    def lines(self):
        return open(self.out, "rb").read().decode("latin-1").split("\n")

    def log(self):
        return open(self.err, "rb").read().decode("latin-1")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def group(self):
        try:
            os.killpg(self.p.pid, 0)
            return True
        except OSError:
            return False


def leaked(key, proc):
    """Is (most of) the key, or what it stands for, in the log?"""
    if not key:
        return False
    b = open(proc.err, "rb").read()
    return key[:24].encode() in b or key[8:].encode() in b or bytes.fromhex(key)[:12] in b


def session(exe, c, rng_seed):
    """As once, again if somebody else took the port that was to be free."""
    if len(HUNG) > 7:
        return None  # it is known, and would take too long
    for k in range(3):
        r, unlucky = once(exe, c, rng_seed + k)
        if not unlucky:
            break
    if r["hung"]:
        HUNG.append(1)
    return r


def once(exe, c, rng_seed):
    rng = random.Random(rng_seed)
    procs = []
    with vlib.Scratch("cli") as d:
        src, dst = os.path.join(d, "src"), os.path.join(d, "dst")
        os.mkdir(src)
        os.mkdir(dst)
        for n in rng.sample(NAMES, rng.choice([1, 2, 4, 6]) if c["man"] != "no" else rng.choice([0, 1, 2, 4, 6])):
            put(src, n, rng.randbytes(rng.choice([0, 1, 100, 5000, 70000, 300000])))
        for n in rng.sample(["old", "d/old"], rng.choice([0, 1, 2])):
            put(dst, n, b"old")
        r = dict(k="session", c=c, src=tree(src), dst0=tree(dst), list=[], leak=False, hung=False, urls=0, other=0, sout=0, rrc=-1, src_rc=-1, early=True, plog=0)
        common = ["-hostname=localhost", "-ipv4", "-num_ports=2", "-max_retries=4"]
        if c["url"] in ("none", "empty", "garbage", "wrongkey", "wrongid", "badkey", "badsecret") or c["sarg"] != "ok" or c["sdir"] != "ok" or c["man"] not in ("no", "some", "short", "empty"):
            common += ["-max_accept_retries=15", "-accept_window_millis=500"]  # it would wait for nobody
        if c["port"] == "taken":
            common += ["-read_timeout_millis=1500", "-write_timeout_millis=1500"]
        ra = [exe, "-directory=" + dst] + common
        taken = None
        if c["port"] == "free":
            ra.append("-start_port=0")
        else:
            for _ in range(500):
                taken, other = socket.socket(), socket.socket()
                p = rng.randrange(10000, 32000)
                q = p + rng.choice([-1, 1])
                with LOCK:
                    if p in USED or q in USED:
                        continue
                    try:
                        taken.bind(("0.0.0.0", p))
                        other.bind(("0.0.0.0", q))
                        USED.update((p, q))
                        break
                    except OSError:
                        taken.close()
                    finally:
                        other.close()
            else:
                raise vlib.CheckError("no two free ports")
            # a stranger who does not answer, or nobody
            if rng.random() < .6:
                taken.listen(16)
            ra += ["-static_ports", "-start_port=%d" % min(p, q)]
            if c["port"] == "strict":
                ra.append("-treat_fewer_port_as_error")
        if c["url"] == "manual":
            ra += ["-encryption_type=none", "-num_ports=1", "-transfer_id=t%d" % rng_seed]
        ra += {"ok": [], "badflag": ["-no_such_flag=3"], "extra": ["something"], "nodir": [], "lenient": ["-no_such_flag=3", "-exit_on_bad_flags=false"]}[c["rarg"]]
        if c["rarg"] == "nodir":
            ra[1] = "-directory="
        if c["fork"]:
            ra.append("-fork")
        if c["abort"]:
            ra.append("-abort_after_seconds=1" if not (c["url"] in ("stdin", "flag", "manual") and c["sarg"] == "ok") else "-abort_after_seconds=50")
        if c["daemon"]:
            ra += ["-run_as_daemon", "-overwrite"]
        if c["resume"]:
            ra.append("-recovery_id=rec1")
        rp = Proc(ra, d, "r", pipe=c["fork"])
        procs.append(rp)
        try:
            t = time.time()
            while time.time() - t < 20 and not any(l.startswith("wdt://") for l in rp.lines()[:-1]) and rp.p.poll() is None:
                time.sleep(.01)
            if c["fork"]:
                rp.eof.wait(20)
            urls = [l for l in rp.lines() if l.startswith("wdt://")]
            url = urls[0] if urls else ""
            m = re.search(r"[?&]enc=\d+:([0-9a-f]+)", url, re.I)
            key = m.group(1) if m else None
            if urls and c["fork"]:
                r["early"] = rp.end(20) == 0 and rp.eof.wait(20)  # before there is a sender; nothing more comes from its output
            if urls and c["url"] != "none":
                for again in range(2 if c["daemon"] else 1):
                    u, inp = url, b""
                    if c["url"] == "empty":
                        u = ""
                    elif c["url"] == "garbage":
                        u = rng.choice(["nothing", "http" + url[3:], "wdt://", "wdt://?x=1"])
                    elif c["url"] == "wrongid":
                        u = re.sub(r"([?&]id=)[^&]*", r"\g<1>another", url)
                    elif c["url"] == "wrongkey":
                        u = re.sub(r"([?&][Ee]nc=\d+:)([0-9a-f])", lambda m: m.group(1) + ("1" if m.group(2) == "0" else "0"), url)
                    elif c["url"] == "badkey":
                        u = re.sub(r"^wdt://[^?]*", "wdt://", url)
                    elif c["url"] == "badsecret":
                        u = re.sub(r"([?&][Ee]nc=\d+)(:)([0-9a-f]+)", lambda m: rng.choice([m.group(1) + m.group(3), "%s:%sx" % m.group(1, 3), "%s:%s" % (m.group(1), m.group(3)[:-1]), "%s:%s%%zz" % m.group(1, 3), "%s:%s%%" % m.group(1, 3), m.group(1)[:-1] + "0:" + m.group(3), m.group(1)[:-1] + "9:" + m.group(3)]), url)
                    sa = [exe, "-directory=" + (src if c["sdir"] == "ok" else src + "x")] + common
                    if c["url"] == "manual":
                        port = re.search(r"[?&]ports=(\d+)|:(\d+)\?", url)
                        sa += ["-destination=localhost", "-start_port=%s" % (port.group(1) or port.group(2)), "-num_ports=1", "-static_ports", "-encryption_type=none", "-transfer_id=t%d" % rng_seed]
                    elif c["url"] == "flag":
                        sa.append("-connection_url=" + u)
                    else:
                        sa.append("-")
                        inp = (u + "\n").encode("latin-1")
                    sa += {"ok": [], "badflag": ["-no_such_flag=3"], "extra": ["something"]}[c["sarg"]]
                    if c["man"] != "no":
                        if not again:
                            ls, lines = [], []
                        for n, size, i in rng.sample(r["src"], rng.randint(1, len(r["src"]))) if not again and c["man"] != "empty" else []:
                            b = open(os.path.join(src, n), "rb").read()
                            k = -1
                            if c["man"] == "short" and rng.random() < .7:
                                k = rng.randint(0, size)
                            elif rng.random() < .4:
                                k = size
                            lines.append(n if k < 0 else "%s\t%d" % (n, k))
                            ls.append([n, size if k < 0 else k, ident(b if k < 0 else b[:k])])
                        if again:
                            pass
                        elif c["man"] == "missing":
                            lines.insert(rng.randrange(len(lines) + 1), "not there")
                        elif c["man"] == "fields":
                            lines.insert(rng.randrange(len(lines) + 1), "a\t1\t0\t3")
                        elif c["man"] == "blank":
                            lines.insert(rng.randrange(len(lines) + 1), "")
                        r["list"] = ls
                        text = "".join(l + "\n" for l in lines)
                        if lines and lines[-1] and rng.random() < .4:
                            text = text[:-1]  # the last line need not end
                        if c["url"] in ("flag", "manual") and c["man"] != "nofile" and rng.random() < .5:
                            inp = text.encode()
                            sa.append("-manifest=-")
                        else:
                            if c["man"] != "nofile":
                                open(os.path.join(d, "list"), "w").write(text)
                            sa.append("-manifest=" + os.path.join(d, "list"))
                    if c["resume"]:
                        sa.append("-enable_download_resumption")
                    if c["abort"]:
                        sa.append("-abort_after_seconds=50")
                    if again:
                        put(src, "second", b"second time")
                        r["src"] = tree(src)
                        sa.append("-overwrite")
                    sp = Proc(sa, d, "s%d" % again, inp)
                    procs.append(sp)
                    rc = sp.end(60)
                    r["hung"] |= rc is None
                    r["src_rc"] = 999 if rc is None else rc
                    r["sout"] = len(open(sp.out, "rb").read())
                    r["leak"] |= leaked(key, sp)
                    if rc != 0:
                        break
            if c["daemon"] and urls:
                rc = rp.p.poll()
                r["hung"] |= rc is not None   # it should not end
                rp.kill()
            rc = rp.end(60)
            r["hung"] |= rc is None
            r["rrc"] = 999 if rc is None else rc
            if c["fork"]:
                t = time.time()
                while time.time() - t < 60 and rp.group():
                    time.sleep(.02)
                r["hung"] |= rp.group()
            ol = [l for l in rp.lines() if l]
            r["urls"] = sum(l.startswith("wdt://") for l in ol)
            r["other"] = len(ol) - r["urls"]
            r["leak"] |= leaked(key, rp)
            r["dst"] = tree(dst)
            if c["resume"]:
                lp = Proc([exe, "-parse_transfer_log", "-directory=" + dst], d, "l")
                procs.append(lp)
                rc = lp.end(30)
                r["plog"] = 999 if rc is None else rc
        finally:
            for p in procs:
                p.kill()
                p.p.wait()
            if taken:
                taken.close()
        unlucky = taken and "Unable to listen port %d" % q in procs[0].log()
        r["said"] = "\n".join("== %s\n%s" % (" ".join(p.p.args), p.log()[-1500:]) for p in procs)
    return r, unlucky


def options(exe, rng):
    with vlib.Scratch("cli") as d:
        n, t = rng.randrange(1, 60), rng.choice(["flash", "disk"])
        p = Proc([exe, "-print_options", "-num_ports=%d" % n, "-directory=" + d, "-option_type=" + t], d, "o")
        rc = p.end(20)
        ls = p.lines()
        m = [l for l in ls if re.search(r"\bnum_ports\b", l)]
        got = int(re.findall(r"\d+", m[0])[-1]) if m else -1
        p.kill()
        return dict(k="options", rc=999 if rc is None else rc, urls=sum("wdt://" in l for l in ls), lines=len(ls), set=got, want=n, said=p.log()[-800:])


def run(c):
    exe = vlib.build("wdt_cli", [os.path.join(vlib.REPO, "wdtCmdLine.cpp"), os.path.join(vlib.REPO, "util", "WdtFlags.cpp")], extra=("-DSTANDALONE_APP",), omit=("WdtFlags.cpp",))
    rng = c.rng
    all_ = judge.cases(c, "CliMC", CFG)
    todo = all_ * 3 if c.thorough else all_
    seeds = [rng.randrange(1 << 30) for _ in todo]
    with cf.ThreadPoolExecutor(4 * vlib.JOBS) as ex:
        recs = [r for r in ex.map(lambda x: session(exe, x[0], x[1]), zip(todo, seeds)) if r]
        recs += list(ex.map(lambda x: options(exe, rng), range(6)))
    said = [r.pop("said") for r in recs]
    for b in judge.judge(c, "Cli", recs):
        r = recs[b]
        c.violation("cli:%s" % r["k"], "%s\n%s" % (r, said[b]))
    c.add("sessions", len(recs))
    c.sample(str(recs[len(recs) // 3])[:600])
    c.assumptions = ["real processes, network and clock: what is judged does not depend on how fast they are"]
