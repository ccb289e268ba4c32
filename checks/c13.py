"""C13: the end of a session (spec/Transfer.tla: errw, Done)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
