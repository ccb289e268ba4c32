"""C03: a checkpoint gives back exactly what was not confirmed (spec/SendQueue.tla)."""
import sq
LEVEL = "model_checking"


def run(c):
    if c.thorough:
        sq.run(c, True, 11, 20000, 22, 30000)
    else:
        sq.run(c, True, 8, 2500, 18, 2500)
    c.assumptions = ["a global checkpoint follows at most once per thread and no local one comes after it",
                     "checkpoint counters within the blocks sent so far plus one"]
