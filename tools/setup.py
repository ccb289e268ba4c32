#!/usr/bin/env python3
"""Compiles the tree under test once, so that the checks start from a warm cache."""
import concurrent.futures as cf
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
vlib._incdir()
with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
    for f in [ex.submit(vlib.compile_one, s) for s in vlib.repo_sources()]:
        try:
            f.result()
        except vlib.CheckError as e:
            vlib.log("setup: %s" % e)  # the checks that need it will say so
print("setup done")
