"""C12: coordination primitives (spec/Coord.tla)."""
import lin
LEVEL = "trace_validation"
CFG = """SPECIFICATION MSpec
CONSTANT N = %d
INVARIANTS BarrierSafe FunnelSafe LockSafe MPrint
"""


def spur(rng, case):
    # where a caller waits in a loop, a wake-up for no reason must change nothing
    return dict(spurious=rng.choice([0, 200])) if case["kind"] in ("barrier", "first", "last", "states") else {}


def run(c):
    cases = []
    for n in ((1, 2, 3) if not c.thorough else (1, 2, 3, 4)):
        cases += lin.model_cases(c, "CoordModel", CFG % n)
    exe = lin.build("coord", ["coord.cpp"])
    lin.explore(c, exe, cases, "CoordTrace", sched_over=spur, per_case=40 if not c.thorough else 400,
                runs=8000 if not c.thorough else 100000)
    c.assumptions = ["funnel and condition-guard waits are not woken without a notification (returning early is allowed "
                     "there: every caller tests again)"]
