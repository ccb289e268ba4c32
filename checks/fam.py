"""Families of transfer scenarios, drawn at random (rng) for checks/e2e.py."""
import e2e
from e2e import Scn, rand_files, rand_env, rand_enc, rand_faults

VS = [10, 11, 12, 13, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]


def base(rng, np=(1, 2, 3), **kw):
    return rand_env(Scn(rng.choice(np), rand_files(rng, **kw)), rng)


def full(s, rng, p=.5):
    if rng.random() < p:
        s.opt(full_reporting=1)
        s.cfg["full"] = True
    return s


def net(rng):
    """Anything the network may do, any configuration."""
    s = rand_enc(base(rng), rng)
    if rng.random() < .8:
        rand_faults(s, rng)
    if rng.random() < .3:
        e2e.resume(s)
    e2e.blocks(s, rng.choice([0, 1, 1, 0.5, 2]))
    return full(s, rng)


def many(rng):
    """More threads, more blocks, more breaks."""
    s = rand_enc(base(rng, (3, 4, 5), most=6), rng)
    rand_faults(s, rng, n=rng.randint(1, 8))
    e2e.blocks(s, rng.choice([0.5, 1]))
    return full(s, rng)


def repeated(rng):
    """The same connection breaks again and again, with and without progress."""
    s = rand_enc(base(rng, (1, 2), most=3, sizes=[1500, 3000, 5000, 9000]), rng)
    p = rng.randrange(s.cfg["np"])
    for n in range(rng.randint(2, 9)):
        s.fault(p, n, 0, rng.choice([0, 20, 90, 250, 700, 1400, 2600]) + rng.randrange(60), rng.choice(["rst", "fin"]),
                rng.choice([0, 0, 200]))
    return full(s, rng)


def retries(s, rng):
    r, m = rng.choice([0, 1, 2, 3, 5, 8]), rng.choice([1, 2, 5, 20])
    s.opt(max_transfer_retries=r, max_retries=m, sleep_millis=rng.choice([10, 50]))
    s.cfg.update(maxnp=r, maxret=m)
    return s


def bounded(rng):
    """Small bounds on the retries, and peers and networks that exhaust them."""
    s = retries(rand_enc(base(rng, most=3, sizes=[0, 500, 1500, 3000, 9000]), rng), rng)
    np = s.cfg["np"]
    x = rng.random()
    if x < .35:
        p = rng.randrange(np)
        for n in range(rng.randint(1, 12)):
            s.fault(p, n, rng.choice([0, 0, 1]), rng.choice([0, 20, 90, 250, 700, 1400, 2600]) + rng.randrange(60),
                    rng.choice(["rst", "fin"]), rng.choice([0, 0, 200]))
    elif x < .7:
        for p in range(np):
            n = rng.choice([0, 0, 1, 2])
            s.fault(p, n, rng.choice([0, 0, 1]), rng.choice([0, 1, 40, 300, 1000, 2500]) + rng.randrange(50),
                    rng.choice(["rst", "fin", "blackhole"]), rng.choice([0, 0, 300]))
            for k in range(n + 1, n + 30):
                s.fault(p, k, rng.choice([0, 0, 1]), rng.choice([0, 0, 0, 20]), rng.choice(["refuse", "refuse", "blackhole"]))
    elif x < .8:
        s.w["nosender"] = 1
        s.cfg["clean"] = False
    else:
        rand_faults(s, rng)
    if rng.random() < .2:
        e2e.resume(s)
    return s


def early(rng):
    """Breaks inside handshakes, checkpoints and the final exchange."""
    s = rand_enc(base(rng), rng)
    if rng.random() < .4:
        e2e.resume(s)
    for k in range(rng.randint(1, 4)):
        s.fault(rng.randrange(s.cfg["np"]), rng.randint(0, 3), rng.choice([0, 1, 1]), rng.randrange(0, 60),
                rng.choice(["rst", "fin", "refuse"]), rng.choice([0, 0, 300]))
    return s


def gone(rng):
    """A port is lost for good in mid-transfer; the others finish its work."""
    s = rand_enc(base(rng, (2, 3, 4), most=5), rng)
    lost = rng.sample(range(s.cfg["np"]), rng.randint(1, s.cfg["np"] - (0 if rng.random() < .15 else 1)))
    for p in lost:
        n = rng.choice([0, 0, 1])
        s.fault(p, n, rng.choice([0, 0, 1]), rng.choice([0, 1, 40, 300, 1000, 2500]) + rng.randrange(50),
                rng.choice(["rst", "fin", "blackhole"]), rng.choice([0, 0, 300]))
        for k in range(n + 1, n + 30):
            s.fault(p, k, 0, 0, "refuse")
    if rng.random() < .3:
        rand_faults(s, rng, n=1)
    if rng.random() < .3:
        e2e.resume(s)
    return s


def taken(rng):
    """Some of the receiver's ports are in use by others: for a while or for good, by a silent stranger or by nobody who listens."""
    s = rand_enc(base(rng, (2, 3, 4), most=5), rng)
    np = s.cfg["np"]
    l = rng.sample(range(np), rng.randint(1, np - 1))
    s.cfg.update(taken=l, clean=False)
    s.w["taken"] = ",".join("%d:%d:%d" % (p, rng.randint(0, 1), rng.choice([1, 4, 7, 12, 1000, 1000])) for p in l)
    if rng.random() < .3:
        rand_faults(s, rng, n=1)
    if rng.random() < .3:
        e2e.resume(s)
    return s


def ver(rng):
    s = rand_enc(base(rng), rng, chk=.5)
    if rng.random() < .2:
        e2e.resume(s)
    return e2e.versions(s, rng.choice(VS), rng.choice(VS))


def verfault(rng):
    """With faults; a receiver that has not learnt the sender's lower version cannot speak it, so there only
    safety is judged, and neither of the two knows how long the other's checkpoint is.  Versions 16..20 have a known finding of their own."""
    s = ver(rng)
    if rng.random() < .5:
        v = rng.choice(VS)
        e2e.versions(s, v, v)
    while 16 <= s.cfg["v"] <= 20:
        e2e.versions(s, rng.choice(VS), rng.choice(VS))
    rand_faults(s, rng)
    s.cfg.update(lax=s.cfg["sv"] < s.cfg["rv"], ends=s.cfg["sv"] == s.cfg["rv"])
    return s


def source(rng):
    """A source file that cannot be read to its end."""
    s = full(rand_enc(base(rng), rng), rng)
    f = rng.choice(s.cfg["files"])
    lim = rng.choice([0, 1, 100, 1024, 1030, 2048])
    s.w.update(sfail=f["name"], slimit=lim, serrno=rng.choice([0, 5]))
    s.cfg["clean"] = False
    if lim < f["size"]:
        s.cfg.update(bad=[f["name"]], lax=True)
    return s


def disk(rng):
    """An operation on the destination's files fails."""
    s = rand_enc(base(rng), rng)
    if rng.random() < .3:
        e2e.resume(s)
    s.w.update(dfail=rng.randrange(30), derrno=rng.choice([28, 5, 13]))
    s.cfg["clean"] = False
    if rng.random() < .5:
        s.w["dop"] = rng.choice(["write", "open", "fsync", "truncate", "fallocate"])
        s.w["dfail"] = rng.randrange(8)
    return s


def abort(rng):
    """The application stops one end, or both, at any moment."""
    s = rand_enc(base(rng), rng)
    x = rng.random()
    if x < .3:
        rand_faults(s, rng)
    elif x < .4:
        s.w["nosender"] = 1
    if rng.random() < .3:
        e2e.resume(s)
    if .4 < x < .5:
        e2e.versions(s, rng.choice(VS), rng.choice(VS))
    one = lambda: "%s:%d:%d" % (rng.choice("srSR"), rng.choice([15, 12, 7, 2]), rng.choice([rng.randrange(12), rng.randrange(70)]))
    s.w["abort"] = ",".join(one() for _ in range(rng.choice([1, 1, 1, 2, 3])))
    if s.w.get("nosender"):
        s.w["abort"] = "%s:2:%d" % (rng.choice("rR"), rng.randrange(6))
    s.cfg["clean"] = False
    return s


def altered(rng):
    """Block data or its checksum changed on the way."""
    s = e2e.checksum(base(rng, most=4))
    s.cfg["corrupt"] = True
    e2e.blocks(s, rng.choice([0, 1, 1, 2]))
    rand_faults(s, rng, kinds=("cdata", "cdata", "cdata", "rst", "fin"))
    if rng.random() < .3:
        e2e.resume(s)
    return s


def stranger(rng):
    """Somebody else connects, at any moment; there may be no real sender at all."""
    s = rand_enc(base(rng), rng)
    np = s.cfg["np"]
    x = rng.random()
    s.cfg.update(own=True, must="none", clean=False, lax=True)
    if x < .12:
        s.w["wrongid"] = 1
        s.cfg.update(own=False, must="ID_MISMATCH")
    elif x < .3:
        kind, must = rng.choice([("badid", "ID_MISMATCH"), ("badver", "VERSION_INCOMPATIBLE"), ("file", "none"), ("done", "none"),
                                 ("size", "none"), ("garbage", "none"), ("enc", "none")])
        s.w.update(nosender=1, rogue=",".join("%s:%d:0" % (kind, p) for p in range(np)))
        s.cfg.update(own=False, must=must if np == 1 else "none")
    else:
        kinds = ["file", "done", "size", "badid", "badver", "garbage", "enc", "slow", "open", "byte"]
        s.w["rogue"] = ",".join("%s:%d:%d" % (rng.choice(kinds), rng.randrange(np), rng.choice([0, 3, 5, 8, 12, 20, 40]))
                                for _ in range(rng.choice([1, 1, 2, 4])))
        if rng.random() < .5:
            rand_faults(s, rng, n=2)
        if rng.random() < .3:
            e2e.resume(s)
    return s


def badpeer(rng):
    """No sender of the right id at all."""
    while True:
        s = stranger(rng)
        if not s.cfg["own"]:
            return s


def refused(rng):
    """Versions without a common one."""
    s = base(rng)
    sv, rv = rng.choice([(rng.randint(1, 9), rng.choice(VS)), (rng.choice(VS), rng.randint(1, 9)), (rng.randint(1, 9), rng.randint(1, 9))])
    e2e.versions(s, sv, rv)
    s.cfg.update(own=False, must="VERSION_INCOMPATIBLE", lax=True, clean=False)
    return s


def verabort(rng):
    """An abort around the change of version."""
    s = e2e.versions(rand_enc(base(rng, (1, 2, 3, 4)), rng), rng.choice(VS), rng.choice(VS))
    if s.cfg["sv"] <= s.cfg["rv"]:
        e2e.versions(s, 32, rng.choice(VS[:-1]))
    s.w["abort"] = ",".join("%s:%d:%d" % (rng.choice("srS"), rng.choice([2, 15, 7]), rng.randrange(40)) for _ in range(rng.choice([1, 1, 2])))
    s.cfg["clean"] = False
    return s


def pick(rng, n, *weighted):
    out = []
    fams = [f for f, w in weighted for _ in range(w)]
    for _ in range(n):
        out.append(rng.choice(fams)(rng))
    return out


# ---------------------------------------------------------------- sessions
def sessions(rng, crash=.6, tree=.12, most=3):
    """Several sessions into one directory: crashes, aborts, failing networks and disks, files that change in between."""
    nph = rng.choice([2, 2, 3, 3, 4])
    s = rand_enc(rand_env(Scn(rng.choice((1, 2, 3)), rand_files(rng, most=most)), rng), rng, chk=.2, gcm=.1, ctr=.05)
    e2e.resume(s)
    s.w.update(phases=nph, logmon=1)
    istree = rng.random() < tree
    alloc = not istree and rng.random() < .75
    if istree:
        s.opt(resume_using_dir_tree=1)
        if rng.random() < .8:
            e2e.blocks(s, 0)
    if not alloc:
        s.opt(disable_preallocation=1)
    if rng.random() < .3:
        s.opt(enable_transfer_log_compaction=1)
    if rng.random() < .1:
        s.opt(keep_transfer_log=0)
    if rng.random() < .5:
        s.opt(transfer_log_write_interval_ms=rng.choice([1, 10]))
    if rng.random() < .2:
        s.w["shortw"] = 1
    files = [(f["name"], f["size"], k) for k, f in enumerate(s.cfg["files"])]
    s.cfg["del"] = True   # the sender says what it does not have; the receiver decides
    s.cfgs, s.starts = [], []
    rid = ""
    for ph in range(nph):
        if ph:
            files = evolve(files, rng, True)
            rm = [f[0] for f in files if rng.random() < .08]
            if rm:
                s.w["rm@%d" % ph] = ",".join(rm)
            if rng.random() < .08 and files:
                f = rng.choice(files)
                s.w["trunc@%d" % ph] = "%s:%d" % (f[0], rng.randrange(f[1] + 1))
            if rng.random() < .12:
                rid = rng.choice(["other", "third", ""])
        if rid:
            s.w["rid@%d" % ph] = rid
        s.w["files@%d" % ph] = ",".join("%s:%d:%d" % f for f in files)
        cfg = dict(s.cfg)
        cfg.update(files=[dict(name=f[0], size=f[1]) for f in files], clean=False, ends=False)
        x = rng.random()
        if ph < nph - 1 or rng.random() < .3:
            if x < crash:
                s.w["crash@%d" % ph] = rng.choice([rng.randrange(12), rng.randrange(40)])
                s.w["crashmid@%d" % ph] = rng.choice([0, 0, 1])
            elif x < crash + .12:
                s.w["abort@%d" % ph] = "%s:%d:%d" % (rng.choice("sr"), rng.choice([2, 7]), rng.randrange(90))
            elif x < crash + .24:
                p = rng.randrange(cfg["np"])
                s.w["faults@%d" % ph] = ",".join("%d:%d:0:%d:%s:0" % (q, n, rng.choice([0, 300, 1200, 2500]) if n == 0 else 0,
                                                                     "rst" if n == 0 else "refuse")
                                                 for q in range(cfg["np"]) for n in range(0, 25))
            elif x < crash + .3:
                s.w["dfail@%d" % ph] = rng.randrange(30)
        s.cfgs.append(cfg)
        s.starts.append(dict(cfg=(1 if alloc else 0) + (2 if istree else 0), alloc=alloc, tree=istree, res=True))
    return s


def evolve(files, rng, shrink=True):
    """The source's files some time later: the same content, longer or shorter; new ones; fewer."""
    out = []
    for n, z, k in files:
        x = rng.random()
        if x < .1:
            z += rng.choice([1, 500, 2000])
        elif x < .2 and shrink:
            z -= min(z, rng.choice([1, 500, 2000]))
        elif x < .25:
            continue
        out.append((n, z, k))
    if rng.random() < .15 or not out:
        k = 10 + rng.randrange(5)
        if all(f[2] != k for f in out):
            out.append(("srcf_n%d" % k, rng.choice(e2e.SIZES), k))
    return out


def resumed(rng):
    """Sessions that end by crashes only, with more threads and files."""
    return sessions(rng, crash=1, most=6)


def tampered(rng):
    """Authenticated encryption with bytes changed, removed or repeated anywhere on the way, or another key."""
    s = base(rng, most=5)
    if rng.random() < .25:
        e2e.checksum(s)
    e2e.encrypt(s, "aes128gcm", rng.choice([700, 1000, 1000, 4096, 4 << 20]))
    e2e.blocks(s, rng.choice([0, 1, 1, 0.5, 2]))
    s.cfg.update(corrupt=True, lax=True, strict=False)
    if rng.random() < .35:
        e2e.resume(s)
    if rng.random() < .3:
        s.w["ivlimit"] = rng.choice([2048, 5000])
    if rng.random() < .04:
        s.w["wrongkey"] = 1
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        kind = rng.choice(["corrupt", "corrupt", "corrupt", "drop1", "drop16", "dup1", "dup16", "rst", "fin"])
        s.fault(rng.randrange(s.cfg["np"]), rng.choice([0, 0, 0, 1, 1, 2]), rng.choice([1, 1, 1, 0]),
                rng.choice([0, 0, 1, 30, 60, 90, 150, 300, 700, 1000, 1500, 2500, 4000]) + rng.randrange(60), kind,
                rng.choice([0, 0, 0, 300]) if kind in ("rst", "fin") else 0)
    return s


def ivs(rng):
    """Encryption without tampering: cut at every length, initialization vectors that change."""
    s = base(rng, most=5)
    if rng.random() < .3:
        e2e.checksum(s)
    tag = rng.choice([7, 41, 100, 700, 1000, 4096, 4 << 20])
    e2e.encrypt(s, "aes128gcm", tag)
    # one vector serves at least one interval
    s.w.update(seg=rng.choice([0, 17, 100, 1000]), ivlimit=rng.choice([0, 0, 1, 3]) * max(tag, 1000))
    if s.w["ivlimit"] == 0 or tag > 5000:
        s.w.pop("ivlimit")
    e2e.blocks(s, rng.choice([0, 1, 1, 0.5]))
    if rng.random() < .3:
        e2e.resume(s)
    if rng.random() < .4:
        rand_faults(s, rng)
    return s


def content(idx, size):
    """What vsim's contentByte makes of it."""
    m, out = (1 << 64) - 1, bytearray()
    for off in range(size):
        r, k = divmod(off, 32)
        if k < 8:
            out.append(b"\xde\xadWDTpln"[k])
            continue
        x = (idx * 1000003 + r * 7919 + 12345) & m
        x ^= x >> 29
        x = x * 0xbf58476d1ce4e5b9 & m
        x ^= x >> 32
        x = (x + k * 0x9e3779b97f4a7c15) & m
        x ^= x >> 30
        x = x * 0x94d049bb133111eb & m
        out.append(x >> 37 & 255)
    return bytes(out)


def like(idx, size):
    """The first content that begins like this one."""
    if not size:
        return -1
    a = content(idx, min(size, 40))
    return next(k for k in range(40) if content(k, min(size, 40)) == a)


def spec_files(fs):
    return [dict(name=n, size=z, like=like(k, z)) for n, z, k in fs]


def dest(rng):
    """A destination that is not empty, with every combination of the options that say what may become of it."""
    srcs = rand_files(rng, most=5, sizes=[0, 1, 10, 500, 1024, 1500, 3000])
    if rng.random() < .15:
        srcs.append(("srcf_%d.x" % len(srcs), 100))
    src = [(n, z, k) for k, (n, z) in enumerate(srcs)]
    s = rand_enc(rand_env(Scn(rng.choice([1, 2, 3]), src), rng), rng, chk=.2, gcm=.1, ctr=.05)
    before = []
    p = rng.choice([0, .3, .6, 1])
    for n, z, k in src:
        if rng.random() < p:
            before.append((n, rng.choice([z, z, 0, 10, z // 2, z + 1, z + 700]), rng.choice([k, 20 + k])))
    for k in range(rng.choice([0, 1, 2, 4])):
        before.append((rng.choice(["extra_%d", "srcf_d0/extra_%d", "only/there/extra_%d", "srcf_%d.x", ".hidden_%d"]) % (k + 7), rng.choice([0, 10, 300, 2000]), 30 + k))
    if rng.random() < .1:
        before.append((".wdt.log.bug", 50, 39))
    mode = rng.choice(["plain", "plain", "plain", "log", "log2", "log2", "tree", "tree", "tree"])
    ow, rdel, sdel = rng.random() < .5, rng.random() < .5, rng.random() < .3
    skip = mode == "plain" and rng.random() < .15
    o = {"ro.overwrite": int(ow), "so.overwrite": int(rng.random() < .5), "ro.delete_extra_files": int(rdel), "so.delete_extra_files": int(sdel)}
    if skip:
        o["ro.skip_writes"] = 1
    if rng.random() < .3 or mode == "tree":
        o["ro.disable_preallocation"] = 1
    if rng.random() < .3:
        o["ro.keep_transfer_log"] = 0
    s.w.update(o)
    s.cfg["del"] = True
    if mode != "plain":
        e2e.resume(s)
    if mode == "tree":
        s.w["ro.resume_using_dir_tree"] = 1
        e2e.blocks(s, 0)
    elif rng.random() < .5:
        e2e.blocks(s, rng.choice([0, 1, .5]))
    s.cfg.update(before=spec_files(before), known=True, ow=ow, rdel=rdel, tree=mode == "tree", skip=skip, hidden=[], outside=[])
    s.w["dst"] = ",".join("%s:%d:%d" % f for f in before)
    if not before:
        s.w.pop("dst")
    fault = rng.random() < .35
    if mode == "log2":
        # a first session without mishap; then the source is another
        first = [(n, max(0, z + rng.choice([0, 0, 0, 1, -1, 600])), k) for n, z, k in src if rng.random() < .7] + \
                [("srcf_o%d" % k, rng.choice([0, 10, 1500]), 12 + k) for k in range(rng.choice([0, 1, 2]))]
        first = first or src[:1]
        s.w.update({"phases": 2, "files@0": ",".join("%s:%d:%d" % f for f in first), "files@1": s.w["files"]})
        s.w["ro.keep_transfer_log"] = 1
        c0 = dict(s.cfg, files=spec_files(first))
        c1 = dict(s.cfg, files=spec_files(src), before=spec_files(first + [b for b in before if b[0] not in {f[0] for f in first}]))
        s.cfgs = [c0, c1]
        if fault:
            s.w["faults@1"] = "0:0:0:%d:rst:0" % rng.randrange(2500)
    else:
        s.cfg["files"] = spec_files(src)
        if fault:
            rand_faults(s, rng)
        if rng.random() < .1:  # an explicit list with a name that leads out of the destination
            out = rng.choice(["../%s", "srcf_q/../../%s", "/%s", "srcf_d0/../../dst/../%s", "..//%s"]) % "srcf_out"
            s.w["files"] += ",%s:700:9" % out
            s.w["manifest"] = s.w["files"]
            s.cfg["outside"] = [out]
            s.cfg["files"] = spec_files(src + [(out, 700, 9)])
        elif rng.random() < .15:  # a source directory that cannot be read
            d = [n for n, _, _ in src if "/" in n]
            if d:
                d = d[0].split("/")[0]
                s.w["sdirfail"] = d
                hid = [f for f in src if f[0].startswith(d + "/")]
                s.cfg["files"] = spec_files([f for f in src if f not in hid])
                s.cfg["hidden"] = [f[0] for f in hid]
    over = {f[0] for f in src} & {f[0] for f in before}
    s.cfg["fine"] = not (fault or s.cfg["hidden"] or s.cfg["outside"] or over and not (skip or ow or mode != "plain"))
    if mode == "log2":
        c0["fine"] = not fault
        c1["fine"] = not fault
    return s
