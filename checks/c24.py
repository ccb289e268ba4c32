"""C24: options, option types and what the user gave (spec/Options.tla; cases
from OptionsMC)."""
import concurrent.futures as cf
import json
import os
import judge
import vlib
LEVEL = "model_checking"
CFG = """SPECIFICATION Spec
CONSTANTS Emit = TRUE
INVARIANTS Wins OnlyTheType Idem Show
CHECK_DEADLOCK FALSE
"""
BOOLS = set("ipv6 ipv4 skip_writes ignore_open_errors two_phases follow_symlinks static_ports full_reporting fsync enable_checksum "
            "enable_perf_stat_collection enable_transfer_log_compaction enable_download_resumption keep_transfer_log "
            "disable_sender_verification_during_resumption odirect_reads disable_preallocation resume_using_dir_tree overwrite "
            "delete_extra_files skip_fadvise enable_heart_beat".split())
INTS = ("start_port num_ports dscp buffer_size max_retries sleep_millis backlog throttler_log_time_millis max_transfer_retries "
        "progress_report_interval_millis accept_timeout_millis max_accept_retries accept_window_millis read_timeout_millis "
        "write_timeout_millis connect_timeout_millis abort_check_interval_millis throughput_update_interval_millis "
        "transfer_log_write_interval_ms global_sender_limit global_receiver_limit namespace_sender_limit namespace_receiver_limit "
        "open_files_during_discovery drain_extra_ms encryption_tag_interval_bytes send_buffer_size receive_buffer_size "
        "iv_change_interval_mb").split()
DBL = "avg_mbytes_per_sec max_mbytes_per_sec throttler_bucket_limit block_size_mbytes disk_sync_interval_mb".split()
STR = "include_regex exclude_regex prune_dir_regex encryption_type".split()
ALL = sorted(BOOLS) + INTS + DBL + STR


def value(r, n):
    if n in BOOLS:
        return r.choice("01")
    if n in INTS:
        return str(r.choice([0, 1, 2, 3, 5, 8, 100, 22356, 262144, r.randrange(1 << 30)]))
    if n in DBL:
        return r.choice(["-1", "0", "0.5", "1", "8", "16", "2.25"])
    return r.choice(["a.*", "none", "x", "aes128ctr", "aes128gcm"])


def run(c):
    c.assumptions += ["standard output is not a terminal (the progress interval's default depends on it)"]
    exes = [vlib.build("options", vlib.hsrc("options.cpp"), with_lib=True),
            vlib.build("options-std", vlib.hsrc("options.cpp") + [os.path.join(vlib.REPO, "util", "WdtFlags.cpp")], with_lib=True,
                       extra=["-DSTANDALONE_APP"], lib_extra=["-USTANDALONE_APP"], omit=["WdtFlags.cpp"])]
    r = c.rng
    cs = judge.cases(c, "OptionsMC", CFG)
    if not c.thorough:
        cs = r.sample(cs, 2500)
    work = []
    for x in cs:
        fl = list(x["flags"].items()) if x["flags"] else []
        r.shuffle(fl)
        work.append((r.randrange(2), "flags %s %s" % (x["type"], " ".join("%s=%s" % kv for kv in fl))))
    k = 8 if c.thorough else 1
    for n in ALL:  # every flag by itself
        for t in ("none", "disk"):
            work.append((r.randrange(2), "flags %s %s=%s" % (t, n, value(r, n))))
    for _ in range(500 * k):
        fl = {n: value(r, n) for n in r.sample(ALL, r.choice([1, 2, 5, 20, 50]))}
        work.append((r.randrange(2), "flags %s %s" % (r.choice(["none", "flash", "disk", "bogus"]), " ".join("%s=%s" % kv for kv in fl.items()))))
    for _ in range(500 * k):
        fl = {n: value(r, n) for n in r.sample(ALL, r.choice([0, 2, 5, 20, 50]))}
        given = r.sample(sorted(set(ALL)), r.choice([0, 1, 3, 20])) + r.sample(["num_ports", "block_size_mbytes", "disable_preallocation", "resume_using_dir_tree", "start_port", "static_ports"], r.randrange(5))
        work.append((0, "mod %s %s %s" % (r.choice(["flash", "disk", "disk", "bogus"]), ",".join(given) or "-", " ".join("%s=%s" % kv for kv in fl.items()))))
    for _ in range(100 * k):
        work.append((0, "thr %d %d %d %d %d" % (r.choice([-2, 0, 1, 7, 100, 3000]), r.choice([-2, 0, 1, 9, 2000]), r.choice([0, 1, 5, 50]), r.randrange(1000), r.randrange(1 << 20))))
    recs, where = [], []
    jobs = []
    for e in (0, 1):
        ls = [l for x, l in work if x == e]
        n = -(-len(ls) // vlib.JOBS)
        jobs += [(e, ls[i:i + n]) for i in range(0, len(ls), n)]
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        for (e, ls), (o, rc, err) in zip(jobs, ex.map(lambda j: vlib.run_lines(exes[j[0]], j[1]), jobs)):
            if rc != 0 or len(o) != len(ls):
                c.violation("crash", {"input": ls[min(len(o), len(ls) - 1)], "rc": rc, "stderr": err[-1500:]})
                return
            recs += [json.loads(x) for x in o]
            where += [(e, l) for l in ls]
    c.add("option_settings", len(recs))
    seen = {}
    for i in judge.judge(c, "Options", recs):
        seen.setdefault(recs[i]["k"], []).append(i)
    for kind, l in seen.items():
        for i in l[:3]:
            c.violation(kind, {"input": where[i], "record": recs[i], "how_many": len(l)})
    for i in (0, len(recs) // 2, len(recs) - 1):
        c.sample({"input": where[i][1][:300]})
