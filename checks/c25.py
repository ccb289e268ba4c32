"""C25: the tools of bench/ (spec/Bigrams.tla)."""
import bench
LEVEL = "model_checking"


def run(c):
    bench.c25(c)
