#!/usr/bin/env python3
"""Setup: builds every check once from /repo's current tree, so that later runs in the same place find the objects.

A check never depends on this: with an empty build folder it builds what it needs itself."""
import glob
import os
import shutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, V)
import check  # noqa: E402
import vbuild  # noqa: E402

by_flavour = {}
for path in sorted(glob.glob(os.path.join(V, "checks", "C*.cpp"))):
    by_flavour.setdefault(check.FLAVOUR.get(os.path.basename(path)[:3], "plain"), []).append(path)
by_flavour["race"] = [os.path.join(V, "checks", c + ".cpp") for c in check.RACE]
by_flavour["bare"] = [os.path.join(V, "checks", c + ".cpp") for c in check.MEMCHECK]
for flavour, mains in by_flavour.items():
    vbuild.build(flavour, mains)
if glob.glob(os.path.join(V, "checks", "C*.py")):
    shutil.rmtree(vbuild.build_python_package())
print("setup ok")
