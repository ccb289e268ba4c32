"""C04: the queue hands out every block once, in order (spec/SendQueue.tla)."""
import sq
LEVEL = "model_checking"


def run(c):
    if c.thorough:
        sq.run(c, False, 11, 20000, 16, 30000)
    else:
        sq.run(c, False, 8, 1500, 14, 3000)
    c.assumptions = ["files are given as a list (directory traversal is C22's)"]
