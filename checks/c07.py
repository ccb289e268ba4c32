"""C07: the log never claims more than the disk holds (spec/Log.tla)."""
import tx
LEVEL = "trace_validation"


def run(c):
    tx.run(c)
