"""Shared machinery of the checks: building /repo's sources against the folly
shim, running TLC, test paths from TLC state graphs, evidence and verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = os.cpu_count() or 4

CXXFLAGS = ["-std=c++17", "-O1", "-g", "-w", "-msse4.2", "-mpclmul", "-fPIC", "-U_FORTIFY_SOURCE",
            "-include", os.path.join(VERIF, "shim", "prelude.h")]
LDLIBS = ["-lboost_filesystem", "-lboost_system", "-lglog", "-lgflags", "-ldouble-conversion",
          "-lcrypto", "-lpthread", "-ldl"]

# the library proper; anything else found in the tree's root and util/ is added
# so that a change that moves code to a new file still links
EXCLUDE_SRC = {"wdtCmdLine.cpp"}


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=None, cwd=None, env=None, input=None):
    return subprocess.run(cmd, cwd=cwd, env=env, input=input, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="replace")


def _h(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _incdir():
    """An include root in which <wdt/...> is the tree under test."""
    d = os.path.join(BUILD, "inc")
    os.makedirs(d, exist_ok=True)
    link = os.path.join(d, "wdt")
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        tmp = link + ".%d" % os.getpid()
        os.symlink(REPO, tmp)
        os.replace(tmp, link)
    return d


def _deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [t for t in txt.split() if t]


def compile_one(src, extra=()):
    """Compiles src (cached by the content of every file it includes)."""
    inc = _incdir()
    cmd = ["g++"] + CXXFLAGS + list(extra) + ["-I" + os.path.join(VERIF, "shim"), "-I" + inc,
                                              "-I" + HARNESS]
    key = hashlib.sha256((" ".join(cmd) + "|" + src).encode()).hexdigest()[:20]
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    base = os.path.join(odir, os.path.basename(src).replace(".", "_") + "-" + key)
    obj, meta = base + ".o", base + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(os.path.exists(p) and _h(p) == h for p, h in m["deps"].items()):
                return obj, m["objhash"]
        except (ValueError, KeyError, OSError):
            pass
    tmp = "%s.%d.tmp.o" % (base, os.getpid())
    d = tmp + ".d"
    r = sh(cmd + ["-MMD", "-MF", d, "-c", src, "-o", tmp], timeout=600)
    if r.returncode != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stderr[-4000:]))
    deps = {os.path.realpath(p) if not p.startswith("/") else p: None for p in _deps(d)}
    deps = {p: _h(p) for p in deps if not p.startswith("/usr/")}
    oh = _h(tmp)
    os.replace(tmp, obj)
    with open(meta + ".%d" % os.getpid(), "w") as f:
        json.dump({"deps": deps, "objhash": oh}, f)
    os.replace(meta + ".%d" % os.getpid(), meta)
    os.unlink(d)
    return obj, oh


def repo_sources():
    out = []
    for d in (REPO, os.path.join(REPO, "util")):
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp") and f not in EXCLUDE_SRC:
                out.append(os.path.join(d, f))
    return out


def build(name, srcs, with_lib=True, extra=(), libs=(), link=(), lib_extra=(), omit=()):
    """Builds an executable from harness sources and the tree under test."""
    all_src = [(s, tuple(extra)) for s in srcs] + \
        ([(s, tuple(extra) + tuple(lib_extra)) for s in repo_sources() if os.path.basename(s) not in omit] if with_lib else [])
    _incdir()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, s, x) for s, x in all_src]
        objs = [f.result() for f in futs]
    key = hashlib.sha256(("|".join(h for _, h in objs) + "|".join(link) + "|".join(libs)).encode()).hexdigest()[:20]
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, name + "-" + key)
    if not os.path.exists(exe):
        for old in os.listdir(bdir):
            if re.fullmatch(re.escape(name) + r"-[0-9a-f]{20}", old):
                try:
                    os.unlink(os.path.join(bdir, old))
                except OSError:
                    pass
        tmp = exe + ".%d" % os.getpid()
        hobjs = [o for o, _ in objs]
        r = sh(["g++", "-o", tmp] + hobjs + list(link) + list(libs) + LDLIBS, timeout=600)
        if r.returncode != 0:
            raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe


def hsrc(*names):
    return [os.path.join(HARNESS, n) for n in names]


# ----------------------------------------------------------------- scratch
class Scratch:
    def __init__(self, tag):
        base = os.environ.get("TMPDIR", "/tmp")
        self.path = tempfile.mkdtemp(prefix="wdtverif-%s-" % tag, dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ----------------------------------------------------------------- TLC
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        """A property or deadlock was violated (as opposed to TLC failing)."""
        return self.rc in (10, 11, 12, 13, 14)


def tlc(module, cfg, workers=None, timeout=800, files=(), heap="6g", args=(), env=None, simulate=None,
        cwd=None, depth_first=False):
    """Runs TLC on spec/<module>.tla with configuration text or file cfg."""
    with Scratch("tlc") as d:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for src in files:
            shutil.copy(src, d)
        if "\n" in cfg:
            open(os.path.join(d, "M.cfg"), "w").write(cfg)
        else:
            shutil.copy(os.path.join(SPEC, cfg), os.path.join(d, "M.cfg"))
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.TLC.stopAfter=%d" % (timeout + 60)]
        if depth_first:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-config", "M.cfg", "-metadir", os.path.join(d, "states"),
                "-noGenerateSpecTE", "-workers", str(workers or "auto")]
        if simulate:
            cmd += ["-simulate"] + simulate
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = sh(cmd, timeout=timeout, cwd=d, env=e)
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out on %s" % module)
        res = TlcResult(r.returncode, r.stdout + r.stderr)
        return res


def tlc_or_die(module, cfg, **kw):
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise CheckError("TLC on %s ended with %d:\n%s" % (module, r.rc, r.out[-6000:]))
    return r


def tlc_prints(res, tag):
    """JSON values printed by PrintT(<<tag, ToJson(v)>>)."""
    return [json.loads(json.loads(m.group(1), strict=False))
            for m in re.finditer(r'<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>' % tag, res.out)]


def canon(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


class Graph:
    """State graph printed by a specification's Dump action constraint: one
    JSON record [s |-> from, a |-> action record, t |-> to] per transition."""

    def __init__(self, edges, inits):
        self.ids, self.out, self.edges = {}, {}, []
        self.states = []
        seen = set()
        for e in edges:
            s, t, a = self._id(e["s"]), self._id(e["t"]), e["a"]
            k = (s, t, canon(a))
            if k in seen:
                continue
            seen.add(k)
            self.out.setdefault(s, []).append(len(self.edges))
            self.edges.append((s, a, t))
        self.inits = [self._id(i) for i in inits]

    def _id(self, st):
        k = canon(st)
        if k not in self.ids:
            self.ids[k] = len(self.states)
            self.states.append(st)
        return self.ids[k]

    def paths(self, maxlen=60, rng=None, budget=None):
        """Paths from an initial state that together take every transition."""
        from collections import deque
        par = {}
        dq = deque()
        for i in self.inits:
            par[i] = None
            dq.append(i)
        while dq:
            s = dq.popleft()
            for ei in self.out.get(s, ()):
                t = self.edges[ei][2]
                if t not in par:
                    par[t] = ei
                    dq.append(t)
        covered = [False] * len(self.edges)
        nxt = {s: 0 for s in self.out}
        order = list(range(len(self.edges)))
        if rng:
            rng.shuffle(order)
            for s in self.out:
                rng.shuffle(self.out[s])
        res = []
        for e0 in order:
            if covered[e0]:
                continue
            src = self.edges[e0][0]
            if src not in par:
                continue
            pre = []
            s = src
            while par[s] is not None:
                pre.append(par[s])
                s = self.edges[par[s]][0]
            init = s
            pre.reverse()
            path = pre + [e0]
            for e in path:
                covered[e] = True
            cur = self.edges[e0][2]
            while len(path) < maxlen:
                lst = self.out.get(cur, [])
                i = nxt.get(cur, 0)
                while i < len(lst) and covered[lst[i]]:
                    i += 1
                if cur in nxt:
                    nxt[cur] = i
                if i >= len(lst):
                    break
                covered[lst[i]] = True
                path.append(lst[i])
                cur = self.edges[lst[i]][2]
            res.append((init, path))
            if budget and len(res) >= budget:
                break
        return res


def mbt_graph(module, cfg, **kw):
    kw.setdefault("workers", 1)
    r = tlc_or_die(module, cfg, **kw)
    edges, inits = tlc_prints(r, "EDGE"), tlc_prints(r, "INIT")
    if not edges:
        raise CheckError("no transitions printed by %s:\n%s" % (module, r.out[-3000:]))
    return Graph(edges, inits), r


# ----------------------------------------------------------------- verdicts
class Check:
    """One run of one property's check."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = TIER
        self.t0 = time.time()
        self.cov = {"samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known().get(pid, [])
        self.known_seen = set()
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc_counts(self, r):
        self.add("states", r.distinct)
        self.add("transitions", r.generated)

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, detail):
        """key identifies what failed (matched against the known findings)."""
        for k in self.known:
            if re.search(k["match"], key):
                if k["id"] not in self.known_seen:
                    self.known_seen.add(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return False
        self.violations.append((key, detail))
        return True

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if self.violations:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + ".txt")
            with open(path, "w") as f:
                for key, d in self.violations[:20]:
                    f.write("== %s\n%s\n" % (key, d))
            key, d = self.violations[0]
            log("%d violation(s); first: %s\n%s" % (len(self.violations), key, str(d)[:3000]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        print("OK property=%s tier=%s %.1fs" % (self.pid, self.tier, time.time() - self.t0))
        return 0


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    res = {}
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            res.setdefault(k["property"], []).append(k)
    return res


def run_lines(exe, lines, timeout=300, args=(), env=None, cwd=None):
    """Feeds lines to a harness, returns its output lines and exit status."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = sh([exe] + list(args), timeout=timeout, input="\n".join(lines) + "\n", env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return (x.stdout or b"").decode(errors="replace").splitlines() if isinstance(x.stdout, bytes) else [], -99, "timeout"
    return r.stdout.splitlines(), r.returncode, r.stderr
