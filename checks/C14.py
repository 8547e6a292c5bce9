#!/usr/bin/env python3
"""C14: the scripts that write the tables, run with many options; what they
wrote and what is committed is dumped from running programs and judged."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib


def check(c):
    c.rule = "distinct (table, options) or (table, angular momentum) combinations dumped from a program and compared entry by entry"
    c.assumptions = ["mpmath (python3-vt) evaluates gamma and 1F1 correctly to 20 digits",
                     "the last points of a grid are those that the library's lookup can reach for arguments below --max-x"]
    tmp = os.path.join(vlib.BUILD, "tables-%d" % os.getpid())
    try:
        py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
        c.run([py, os.path.join(vlib.SRC, "tables.py"), vlib.REPO, tmp, vlib.TIER, str(vlib.SEED)], "table scripts", timeout=800, retry_timeout=False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.finish(5000)


vlib.main(check, "C14")
