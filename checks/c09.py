"""C09: received and remaining ranges partition a file (spec/Chunks.tla)."""
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION Spec
CONSTANTS MaxOff = %d MaxChunks = %d MaxMerges = %d
INVARIANTS MergeRight PartitionRight MergeIdempotent %s
CHECK_DEADLOCK FALSE
"""


def bad(case, size, scale, line):
    """Judges the implementation's answer against the bytes the model covers."""
    try:
        a, t, r = line.split("|")
        m = [int(x) for x in a.split()]
        r = [int(x) for x in r.split()]
        t = int(t)
    except ValueError:
        return "no answer: " + line
    m = list(zip(m[::2], m[1::2]))
    r = list(zip(r[::2], r[1::2]))
    cover = set(case["cover"])

    def bytes_of(iv):
        out = set()
        for s, e in iv:
            if s % scale or e % scale or s > e:
                return None
            b = set(range(s // scale, e // scale))
            if out & b:
                return None
            out |= b
        return out
    if any(m[i][1] >= m[i + 1][0] for i in range(len(m) - 1)):
        return "merged ranges not sorted and separate"
    if bytes_of(m) != cover:
        return "merged ranges cover other bytes"
    if t != len(cover) * scale:
        return "total size wrong"
    if any(r[i][1] > r[i + 1][0] for i in range(len(r) - 1)):
        return "remaining ranges not sorted"
    if bytes_of(r) != set(range(size)) - cover:
        return "remaining ranges are not the complement"
    return None


def run(c):
    exe = vlib.build("chunks", vlib.hsrc("chunks.cpp"))
    shapes = [(4, 3, 0), (6, 2, 1)] if not c.thorough else [(4, 4, 0), (6, 3, 1), (8, 2, 1)]
    n = 0
    for mo, mc, mm in shapes:
        r = vlib.tlc("Chunks", CFG % (mo, mc, mm, "Dump"), workers=1)
        if not r.ok:
            raise vlib.CheckError("Chunks.tla: " + r.out[-2000:])
        c.tlc_counts(r)
        cases = vlib.tlc_prints(r, "CASE")
        lines, meta = [], []
        for k in cases:
            if not k["in"]:
                seq = []
            else:
                seq = [tuple(x) for x in k["in"]]
            for size in {k["minsize"], mo}:
                for scale in (1, 1 << 20, 1 << 40):
                    lines.append("%d %d %d %s" % (scale, size, len(seq), " ".join("%d %d" % x for x in seq)))
                    meta.append((k, size, scale))
                # arrival order must not matter
                if len(seq) > 1:
                    perm = seq[:]
                    c.rng.shuffle(perm)
                    lines.append("1 %d %d %s" % (size, len(seq), " ".join("%d %d" % x for x in perm)))
                    meta.append((k, size, 1))
        out, rc, err = vlib.run_lines(exe, lines)
        for i, (k, size, scale) in enumerate(meta):
            if i >= len(out):
                c.violation("crash", "harness ended with %s at: %s\n%s" % (rc, lines[i], err[-500:]))
                break
            b = bad(k, size, scale, out[i])
            n += 1
            if b:
                c.violation("chunks", "%s: input '%s' gave '%s'" % (b, lines[i], out[i]))
        c.sample({"input": lines[len(lines) // 2], "output": out[len(lines) // 2] if len(out) > len(lines) // 2 else None})
    # longer random histories with merges in between, from the model's simulator shape
    lines, meta = [], []
    for _ in range(3000 if not c.thorough else 40000):
        mo = c.rng.choice([8, 20, 50])
        seq, cover, mx = [], set(), 0
        for _ in range(c.rng.randint(0, 14)):
            if c.rng.random() < 0.15:
                seq.append((-1, -1))
                continue
            s = c.rng.randint(0, mo)
            e = c.rng.randint(s, min(mo, s + c.rng.choice([0, 2, 5, mo])))
            seq.append((s, e))
            cover |= set(range(s, e))
            mx = max(mx, e)
        size = c.rng.choice([mx, mx, mo])
        scale = c.rng.choice([1, 3, 1 << 33])
        lines.append("%d %d %d %s" % (scale, size, len(seq), " ".join("%d %d" % x for x in seq)))
        meta.append(({"cover": sorted(cover)}, size, scale))
    out, rc, err = vlib.run_lines(exe, lines)
    for i, (k, size, scale) in enumerate(meta):
        if i >= len(out):
            c.violation("crash", "harness ended with %s at: %s\n%s" % (rc, lines[i], err[-500:]))
            break
        b = bad(k, size, scale, out[i])
        n += 1
        if b:
            c.violation("chunks", "%s: input '%s' gave '%s'" % (b, lines[i], out[i]))
    c.cov["traces_validated_against_impl"] = n
    c.cov["exhaustive"] = True
    c.assumptions = ["remaining ranges are queried for merged ranges and a size not below the last received byte, as every caller does"]
