"""C19: aborts (spec/Abort.tla)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
