"""C18: connection URLs (spec/Uri.tla; URLs and requests from UriMC)."""
import concurrent.futures as cf
import json
import judge
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION Spec
CONSTANTS MaxTok = %d Emit = %s
INVARIANTS Back Show
CHECK_DEADLOCK FALSE
"""
HOSTS = ["h", "localhost", "a.b-c_d.com", "1.2.3.4", "::1", "12::12:1", "fe80::1%25eth0", "", "a:b", "h]x", "[h", "x y", "a&b=c", "h%41", "/", "\xc3\xa9"]
KEYS = ["id", "recpv", "dir", "ports", "start_port", "num_ports", "Enc", "tls", "ns", "dstid", "dr", "iv_change_int", "zz", "ID", ""]
VALS = {"recpv": ["32", "0", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "3x", "x", "", "007", "1.5", "0x10", "%33%32"],
        "ports": ["1", "1,2,3", "1,3,7", ",1,,2,", "1,x", "2147483647", "2147483648", "-1", "", ",", "1%2c2", "22356,22357", "1:2"],
        "start_port": ["22356", "0", "-3", "x", "", "99999999999"], "num_ports": ["3", "1", "0", "-2", "x", "", "99999999999", "12", "1,2", "%"],
        "Enc": ["1:464f4f", "2:00ff", "0:11", "3:11", "1:", ":11", "1:1", "1:0g", "1", "01:ab", "100000001:ab", "10:ab", "1:AB", "1:ab:cd", "2:%30%30", "f:00", "00000002:1234"],
        "tls": ["0", "1", "true", "False", "yes", "2", "x", "01", "", "10"], "iv_change_int": ["0", "65536", "-5", "k", "99999999999999999999", "", "08"]}
VALS["dr"] = VALS["tls"]
TEXT = ["", "x", "a b", "a%41", "%", "%4", "%4g", "%4G", "%00", "%ff", "a=b", "==", "a:b", "?", "+", "%26%3d%3f%25", "é", "[", "/tmp/x"]


def hx(s):
    b = s if isinstance(s, bytes) else s.encode("latin-1", "replace") if all(ord(ch) < 256 for ch in s) else s.encode()
    return b.hex() or "-"


def rurl(r):
    h = r.choice(HOSTS[:6] * 3 + HOSTS)
    u = "wdt://" + ("[%s]" % h if ":" in h and r.random() < .9 else h)
    if r.random() < .6:
        u += ":" + r.choice(["22356", "1", "22356", "0", "-7", "", "x", "2147483647" if r.random() < .0 else "65000", "99999999999", "12a"])
    if r.random() < .95:
        ps = []
        for _ in range(r.randrange(7)):
            k = r.choice(KEYS[:12] * 2 + KEYS)
            v = r.choice(VALS.get(k, TEXT)) if r.random() < .95 else r.choice(TEXT)
            ps.append(k + ("=" if r.random() < .97 else "") + v)
        if r.random() < .75 and not any(p.startswith(("num_ports", "ports")) for p in ps):
            ps.insert(r.randrange(len(ps) + 1), r.choice(["num_ports=3", "ports=4,5,9", "num_ports=2", "num_ports=1&start_port=77"]))
        if r.random() < .08:
            ps.insert(r.randrange(len(ps) + 1), "")
        u += "?" + "&".join(ps)
    if r.random() < .06:
        i = r.randrange(len(u) + 1)
        u = u[:i] + r.choice(["?", "&", "=", "%", ":", "[", "]", "/", "", "\x00"]) + u[i + r.randrange(2):]
    return u


def rbytes(r, n):
    m = r.random()
    if m < .4:
        return bytes(r.randrange(256) for _ in range(n))
    if m < .7:
        return bytes(r.choice(b"%&=?:[],+-._ aZ09/#\x00\xff") for _ in range(n))
    return bytes(r.choice(b"abcXYZ0189._-") for _ in range(n))


def rgen(r):
    def s(p=.5):
        return rbytes(r, r.choice([1, 3, 8, 20])).hex() if r.random() < p else "-"
    host = r.choice(["h", "localhost", "a.b-c_d.com", "1.2.3.4", "::1", "12::12:1", "fe80::a:1", "x-1", "h", ""] if r.random() < .95 else ["[h", "a:b]c", "x y"])
    i64 = lambda: r.choice([32, 0, -1, 1, 1 << 31, (1 << 63) - 1, -(1 << 63), r.randrange(1 << 40)])
    n = r.choice([1, 1, 2, 3, 5, 8, 0])
    st = r.choice([1, 22356, 40000, 65530, r.randrange(1, 60000), 0, -3]) if r.random() < .3 else r.randrange(1, 60000)
    m = r.random()
    ports = [st + i for i in range(n)] if m < .4 else [st] * n if m < .5 else [r.choice([0, 1, 2, 3, st, st + 1, 65535]) for _ in range(n)]
    if r.random() < .2 and n > 2:
        ports[-1] = r.choice([ports[0], ports[-1] + 1, ports[-2]])
    et = r.choice([0, 0, 1, 2])
    key = rbytes(r, r.choice([16, 16, 16, 1, 2, 32, 100])).hex() if et else "-"
    return " ".join(map(str, ["gen", hx(host), s(), s(.3), s(.3), s(.3), i64(), i64(), r.randrange(2), r.randrange(2), et, key,
                              r.choice([1, 10, 34]) if r.random() < .04 else 0] + ports))


def run(c):
    c.assumptions += ["folly::to is the shim's; numbers with blanks or a plus sign around them are not tried",
                      "host names contain no question mark", "num_ports below a thousand; ports below 2^31 - 1000"]
    exe = vlib.build("uri", vlib.hsrc("uri.cpp"), with_lib=True)
    r = c.rng
    toks = judge.cases(c, "UriMC", CFG % (5 if c.thorough else 3, "TRUE"))
    lines = []
    for t in toks:
        s = "".join(t)
        for u in ({"wdt://" + s, "wdt://h" + s, "wdt://h:7?num_ports=2&id=A" + s} if len(t) < 5 else {"wdt://h:7?num_ports=2&" + s if r.random() < .5 else "wdt://" + s}):
            lines.append("%s %s" % (r.choice(["uri", "req"]) if len(t) > 3 else "uri", hx(u)))
            if len(t) <= 3:
                lines.append("req " + hx(u))
    c.add("enumerated_urls", len(lines))
    for u in ["", "wdt", "wdt:/", "wdt://", "wdu://h", "WDT://h", " wdt://h", "wdt:///h:1?num_ports=1"]:
        lines += ["uri " + hx(u), "req " + hx(u)]
    k = 6 if c.thorough else 1
    for _ in range(9000 * k):
        u = rurl(r)
        lines.append(r.choice(["uri", "req", "req"]) + " " + hx(u))
    for b in range(256):
        lines += ["esc %02x" % b, "esc 41%02x41" % b, "unesc 25%02x41" % b, "unesc 2541%02x" % b, "unesc 41%02x" % b]
    for _ in range(1500 * k):
        lines.append("esc " + (rbytes(r, r.randrange(20)).hex() or "-"))
        lines.append("unesc " + (bytes(r.choice(b"%%%0189afgAF:+z") for _ in range(r.randrange(12))).hex() or "-"))
    lines += [rgen(r) for _ in range(6000 * k)]
    n = -(-len(lines) // vlib.JOBS)
    recs, where = [], []

    def one(lo):
        o, rc, err = vlib.run_lines(exe, lines[lo:lo + n])
        return lo, o, rc, err
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for lo, o, rc, err in ex.map(one, range(0, len(lines), n)):
            part = lines[lo:lo + n]
            if rc != 0 or len(o) != len(part):
                c.violation("crash", {"input": part[min(len(o), len(part) - 1)], "rc": rc, "stderr": err[-1500:]})
                return
            for l, x in zip(part, o):
                recs.append(json.loads(x))
                where.append(l)
    c.add("urls_and_requests", len(recs))
    c.add("accepted", sum(bool(x.get("got", x).get("ok")) for x in recs if x["k"] != "esc"))
    seen = {}
    for i in judge.judge(c, "Uri", recs):
        seen.setdefault(recs[i]["k"], []).append(i)
    for kind, l in seen.items():
        for i in l[:3]:
            x = dict(recs[i])
            for f in ("url", "log", "s", "e"):
                if f in x:
                    x[f] = bytes(x[f]).decode("latin-1")
            c.violation(kind, {"input": where[i], "record": x, "how_many": len(l)})
    for i in (0, len(recs) // 2, len(recs) - 1):
        c.sample({"input": where[i][:300]})
