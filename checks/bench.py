"""The tools of bench/: statistics (C25) and generated files (C26), judged by spec/Bigrams.tla."""
import concurrent.futures as cf
import os
import re
import struct
import subprocess
import judge
import vlib

B = os.path.join(vlib.REPO, "bench")
CFG = """SPECIFICATION Spec
CONSTANTS Alphabet = {%s} MaxRuns = %d MaxTimes = %d
INVARIANTS Agree Total Dump
CHECK_DEADLOCK FALSE
"""


def tool(name, src):
    return vlib.build(name, [os.path.join(B, src), os.path.join(B, "Bigram.cpp")], with_lib=False)


def pmap(f, l):
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        return list(ex.map(f, l))


late = []


def run_tool(exe, args, data=b"", cwd=None, timeout=60):
    if len(late) > 8:
        return "no end (not tried again)", b"", ""
    try:
        p = subprocess.run([exe] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired:
        late.append(1)
        return "no end in %d s" % timeout, b"", ""
    return p.returncode, p.stdout, p.stderr.decode(errors="replace")


# ---------------------------------------------------------------- C25
def expand(runs):
    return b"".join(bytes([b]) * n for b, n in runs)


def printed(b):
    """The forms in which a byte may be printed (the escape of a byte above 127 in its signed form, too)."""
    if b == 0x5c:
        return ["\\\\"]
    if b == 0x22:
        return ['\\"']
    if 32 <= b < 127:
        return [chr(b)]
    return ["\\0%o" % b] + (["\\0%o" % (b | 0xffffff00)] if b > 127 else [])


def text_form(out, alphabet):
    """Reads the tool's C source form back: pairs of the given bytes."""
    forms = {}
    for a in alphabet:
        for b in alphabet:
            for x in printed(a):
                for y in printed(b):
                    forms.setdefault('{"%s%s"}' % (x, y), set()).add((a, b))
    res = []
    for l in out.decode("latin-1").split("\n"):
        if not l.strip():
            continue
        m = re.fullmatch(r'\s*\{(\{".*"\}), (\d+)\},?', l)
        if not m or len(forms.get(m.group(1), ())) != 1:
            return None
        a, b = list(forms[m.group(1)])[0]
        res.append([a, b, int(m.group(2))])
    return res


def stored_form(out):
    if len(out) % 6:
        return None
    return [[out[i], out[i + 1], struct.unpack("=I", out[i + 2:i + 6])[0]] for i in range(0, len(out), 6)]


def stats_cases(c):
    cs = judge.cases(c, "BigramsMC", CFG % ("0, 97, 255", 3, 3)) + judge.cases(c, "BigramsMC", CFG % ("10, 34, 92, 48", 3, 1))
    if c.thorough:
        cs += judge.cases(c, "BigramsMC", CFG % ("0, 97, 128, 255", 4, 2))
    rng = c.rng
    for k in range(900 if c.thorough else 250):
        al = [rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 6, 12]))]
        if rng.random() < .3:
            al = rng.sample([0, 1, 7, 8, 15, 34, 39, 48, 55, 92, 63, 64, 127, 128, 129, 159, 254, 255], 6)
        cs.append(dict(runs=[[rng.choice(al), rng.choice([1, 1, 2, 3, 260, 70000 if k % 9 == 0 else 5])] for _ in range(rng.randint(1, 40))],
                       wrap=rng.random() < .5))
    # every byte next to every other
    a = list(range(256))
    rng.shuffle(a)
    cs.append(dict(runs=[[x, 1] for x in a], wrap=True))
    return cs


def c25(c):
    exe = tool("wdt_gen_stats", "wdtStats.cpp")
    recs, desc = [], []

    def one(k):
        case, binary = k
        rc, out, err = run_tool(exe, ["-wrap=%s" % str(case["wrap"]).lower(), "-binary=%s" % str(binary).lower()], expand(case["runs"]))
        if rc != 0:
            return "exit status %s\n%s" % (rc, err[-1000:])
        o = stored_form(out) if binary else text_form(out, {r[0] for r in case["runs"]})
        return o if o is not None else "cannot be read back: %r" % out[:300]
    todo = [(k, b) for i, k in enumerate(stats_cases(c)) for b in ((True, False) if i % 3 == 0 else (True,))]
    for (case, binary), o in zip(todo, pmap(one, todo)):
        what = "wdt_gen_stats wrap=%s binary=%s input (byte, times): %s" % (case["wrap"], binary, case["runs"])
        if isinstance(o, str):
            c.violation("stats:form", "%s\n%s" % (what, o))
            continue
        recs.append(dict(k="stats", runs=case["runs"], wrap=case["wrap"], out=o))
        desc.append(what)
    c.add("inputs", len(todo))
    # the class itself
    pexe = vlib.build("bigram", vlib.hsrc("bigram.cpp") + [os.path.join(B, "Bigram.cpp")], with_lib=False)
    vals = [0, 1, 10, 34, 92, 97, 98, 127, 128, 254, 255]
    pairs = [(a, b) for a in vals for b in vals]
    n = len(pairs)
    lines = ["%d %d %d %d" % (x + y) for x in pairs for y in c.rng.sample(pairs, 40) + [x]]
    out, rc, err = vlib.run_lines(pexe, lines)
    if rc != 0 or len(out) != len(lines):
        c.violation("stats:class", "class Bigram: ended with status %s after %d of %d answers\n%s" % (rc, len(out), len(lines), err[-500:]))
        return
    import json
    for l in out:
        recs.append(json.loads(l))
        desc.append("Bigram " + l)
    sub = [(a, b) for a in (0, 97, 127, 128, 255) for b in (0, 97, 128, 255)]
    out, rc, err = vlib.run_lines(pexe, ["%d %d %d %d" % (x + y) for x in sub for y in sub])
    m = [json.loads(l)["lt"] for l in out]
    recs.append(dict(k="order", m=[m[i * len(sub):(i + 1) * len(sub)] for i in range(len(sub))]))
    desc.append("order of bigrams %s" % sub)
    for b in judge.judge(c, "Bigrams", recs):
        c.violation("stats:%s" % recs[b]["k"], "%s\n%s" % (desc[b], str(recs[b])[:2000]))
    c.sample(desc[len(desc) // 7] if desc else "")


# ---------------------------------------------------------------- C26
def gen_case(rng):
    nb = rng.choice([1, 2, 3, 4, 6, 10])
    al = rng.sample(range(256), rng.randint(1, 5)) if rng.random() < .5 else rng.sample([0, 10, 97, 98, 99, 127, 128, 200, 255], rng.randint(2, 5))
    st = {}
    for _ in range(nb):
        st[(rng.choice(al), rng.choice(al))] = rng.choice([1, 1, 2, 3, 7, 20, 0, 255, 256, 300, 3000, 65537, 70000])
    if not any(st.values()):
        st[(al[0], al[-1])] = 2
    stats = [[a, b, n] for (a, b), n in st.items()]
    rng.shuffle(stats)
    threads = rng.choice([1, 1, 2, 3, 5])
    each = rng.choice([1, 2, 5, 17, 63, 64, 65, 400, 900])
    extra = rng.randrange(threads)
    block = rng.choice([1, 2, 3, 7, 16, 64, 100, each, each, each + 1, 16384])
    k = dict(stats=stats, threads=threads, each=each, block=block, mb=(each * threads + extra) / 1048576.0, reset="", start="")
    if rng.random() < .3:
        k["reset"] = chr(rng.choice([a for a in al if a] or [97])) if al else ""
    if rng.random() < .3:
        n = rng.randint(1, min(4, block, each))
        k["start"] = "".join(rng.choice([chr(a) for a in al if 0 < a < 128] + ["q"]) for _ in range(n))
    if k["reset"] and ord(k["reset"]) > 127:
        k["reset"] = ""
    k["old"] = rng.choice([None, None, 0, 3, each * threads, each * threads + 1 + rng.randrange(300)])
    k["stdin"] = rng.random() < .5
    k["tail"] = [rng.choice(al), 113, 3, 0, 0][:rng.choice([0, 0, 1, 2, 3, 5])]   # an entry cut short
    return k


def big_case(rng):
    k = gen_case(rng)
    k["stats"] = [[a, b, min(n, 3000)] for a, b, n in k["stats"]]
    k.update(threads=rng.choice([1, 16]), each=rng.choice([30000, 70001]), block=rng.choice([16384, 4096, 30000, 70001]), start="")
    k["mb"] = k["each"] * k["threads"] / 1048576.0
    return k


def refused(exe, what):
    """Parameters that make no sense: an error, and nothing is changed."""
    with vlib.Scratch("gen") as d:
        t = os.path.join(d, "t")
        os.makedirs(os.path.join(t, "sub"))
        open(os.path.join(t, "kept"), "wb").write(b"keep")
        st = os.path.join(d, "stats")
        open(st, "wb").write(b"ab" + struct.pack("=I", 3) + b"ba" + struct.pack("=I", 2))
        a = {"-gen_size_mb": "0.001", "-num_threads": "2", "-gen_block_size": "64", "-directory": t, "-stats_source": st, "-filename": "out"}
        a.update([{"-stats_source": os.path.join(d, "none")}, {"-directory": os.path.join(d, "none")}, {"-filename": "sub"}, {"-filename": "none/x"},
                  {"-gen_block_size": "0"}, {"-gen_size_mb": "0", "-filename": "kept"}, {"-gen_size_mb": "0.000001", "-num_threads": "2", "-filename": "kept"}][what])
        rc, out, err = run_tool(exe, ["%s=%s" % x for x in a.items()])
        left = sorted(os.path.relpath(os.path.join(p, f), t) for p, ds, fs in os.walk(t) for f in ds + fs)
        return str(a), dict(k="refused", rc=rc if isinstance(rc, int) else 1000, left=left, kept=open(os.path.join(t, "kept"), "rb").read() == b"keep")


def huge(c):
    """Files beyond 2 and 4 GB: where the threads write is recorded instead of written."""
    exe = vlib.build("wdt_gen_huge", vlib.hsrc("pwrite_rec.cpp") + [os.path.join(B, "wdtGenFiles.cpp"), os.path.join(B, "Bigram.cpp")], with_lib=False, extra=("-O2",))
    res = []
    U = 1 << 20
    for mb, threads, block in [(2304, 16, 9 * U + 1)] + ([(4608, 32, 24 * U), (4608, 3, 64 * U + 5)] if c.thorough else []):
        with vlib.Scratch("gen") as d:
            open(os.path.join(d, "stats"), "wb").write(b"ab" + struct.pack("=I", 3) + b"ba" + struct.pack("=I", 2))
            rec = os.path.join(d, "rec")
            args = ["-gen_size_mb=%d" % mb, "-num_threads=%d" % threads, "-gen_block_size=%d" % block, "-directory=" + d, "-filename=out", "-stats_source=" + os.path.join(d, "stats")]
            os.environ["PWREC"] = rec
            rc, out, err = run_tool(exe, args, timeout=400)
            size = os.path.getsize(os.path.join(d, "out")) if os.path.exists(os.path.join(d, "out")) else -1
            if rc == 0 and os.path.exists(rec):
                w = sorted([int(x) for x in l.split()] for l in open(rec))
            else:   # written in another way: the size must do
                w = [[0, size]]
            res.append(("%s, status %s %s" % (args, rc, err[-300:]), dict(k="tiles", rc=rc if isinstance(rc, int) else 1000, mb=mb, u=U, w=[[o // U, o % U, n // U, n % U] for o, n in w])))
    return res


def c26(c):
    exe = tool("wdt_gen_files", "wdtGenFiles.cpp")
    rng = c.rng
    todo = [gen_case(rng) for _ in range(6000 if c.thorough else 1200)] + [big_case(rng) for _ in range(100 if c.thorough else 16)]

    def one(k):
        with vlib.Scratch("gen") as d:
            st = b"".join(bytes([a, b]) + struct.pack("=I", n) for a, b, n in k["stats"]) + bytes(k["tail"])
            os.mkdir(os.path.join(d, "t"))
            open(os.path.join(d, "stats"), "wb").write(st)
            args = ["-gen_size_mb=%r" % k["mb"], "-num_threads=%d" % k["threads"], "-gen_block_size=%d" % k["block"], "-directory=" + os.path.join(d, "t")]
            if not k["stdin"]:
                args.append("-stats_source=" + os.path.join(d, "stats"))
            if k["reset"]:
                args.append("-reset_char=" + k["reset"])
            if k["start"]:
                args.append("-start=" + k["start"])
            f = os.path.join(d, "t", "out.x")
            other = os.path.join(d, "t", "gen.data")
            open(other, "wb").write(b"keep")
            if k["old"] is not None:
                open(f, "wb").write(b"\x7e" * k["old"])
            rc, out, err = run_tool(exe, args + ["-filename=out.x"], st if k["stdin"] else b"")
            if rc != 0:
                return "exit status %s: %s" % (rc, err[-800:])
            if not os.path.exists(f):
                return "no file: %s" % sorted(os.listdir(os.path.join(d, "t")))
            data = open(f, "rb").read()
            rc, out, err = run_tool(exe, args + ["-filename=again"], st if k["stdin"] else b"")
            same = rc == 0 and os.path.exists(os.path.join(d, "t", "again")) and open(os.path.join(d, "t", "again"), "rb").read() == data
            others = sorted(os.listdir(os.path.join(d, "t"))) == ["again", "gen.data", "out.x"] and os.path.exists(other) and open(other, "rb").read() == b"keep"
        segs = []
        segs_d = [data[i * k["each"]:(i + 1) * k["each"]] for i in range(k["threads"])]
        s0 = k["start"].encode("latin-1")
        for i in range(k["threads"]):
            b = data[i * k["each"]:(i + 1) * k["each"]]
            skip = max(len(s0) - 1, 0)
            cnt = {}
            for x, y in zip(b[skip:], b[skip + 1:]):
                cnt[(x, y)] = cnt.get((x, y), 0) + 1
            segs.append(dict(len=len(b), first=b.startswith(s0), pairs=[[x, y, n] for (x, y), n in sorted(cnt.items())], chars=sorted(set(b))))
        return dict(k="gen", stats=k["stats"], found=len(data), threads=k["threads"], each=k["each"], same=same, others=others,
                    dup=max([segs_d.count(x) for x in set(segs_d)]), reset=ord(k["reset"]) if k["reset"] else -1, oneblock=k["block"] >= k["each"], own=sorted(set(s0)), seg=segs)
    more = [refused(exe, x) for x in range(7)] + huge(c)
    recs, desc = [], []
    for k, r in zip(todo, pmap(one, todo)):
        if isinstance(r, str):
            c.violation("gen:exit", "%s\n%s" % (k, r))
            continue
        recs.append(r)
        desc.append(str(k))
    for k, r in more:
        recs.append(r)
        desc.append(k)
    for b in judge.judge(c, "Bigrams", recs):
        r = recs[b]
        why = r["k"] if r["k"] != "gen" else "size" if r["found"] != r["threads"] * r["each"] else "same" if not r["same"] else "others" if not r["others"] else "content"
        c.violation("gen:" + why, "%s\n%s" % (desc[b], str(r)[:2500]))
    c.add("files_generated", 2 * len(recs))
    c.sample(desc[len(desc) // 2] if desc else "")
