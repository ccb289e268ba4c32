"""C01: completed transfers deliver every byte (spec/Transfer.tla)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
