"""C02: reports tell the truth (spec/Transfer.tla: Reported, Ended, Dst)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
