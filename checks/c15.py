"""C15: altered data (spec/Transfer.tla with corrupting networks)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
