"""C08: resumed transfers (spec/Log.tla, spec/Transfer.tla)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
