"""C23: bounds on retries and time (spec/Transfer.tla: Ended, InTime)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
