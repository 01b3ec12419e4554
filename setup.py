#!/usr/bin/env python3
"""Builds the conformance harness from /repo's working tree (both feature sets) and
checks that TLC starts. Each check rebuilds on its own; this only warms the caches."""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "lib")
import vt
bins = sorted(f[:-3] for f in os.listdir("harness/src/bin") if f.endswith(".rs"))
ctx = vt.Ctx("setup")
ctx.build(bins)
ctx.build(bins, mc=False)
import shutil
shutil.rmtree(ctx.work, ignore_errors=True)
print("built", bins)
