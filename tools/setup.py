#!/usr/bin/env python3
"""Setup: the tools are there, our own oracle compiles and agrees with its
quadruple-precision twin."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
for t in ("gcc", "g++", "clang", "clang++", "cmake", "ninja", "gfortran"):
    if shutil.which(t) is None:
        print("note: %s is not installed" % t)
os.makedirs(vlib.BUILD, exist_ok=True)
print(vlib.oracle_obj())
