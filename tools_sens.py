#!/usr/bin/env python3
"""developer aid: python3 tools_sens.py C01 [limit] -> undetected in-memory edits"""
import sys, json
import check
from fgs.program import Program
from fgs.mutate import sensitivity
pid = sys.argv[1]
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 400
mod, ctx = check.analyse(pid, Program("/repo"), "quick")
r = sensitivity(pid, "/repo", ctx, limit=lim, keep=100000)
nd = r.pop("not_detected")
print(r)
for x in nd:
    print("  ", x)
