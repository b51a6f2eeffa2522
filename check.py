#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--deadline S]   |   check.py replay FILE   |   check.py setup"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, check
def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        build.engine(); build.shim()
        for f in (0, 1):
            v = build.Variant(fake=f)
            build.lib_ir(v)
        build.lib_native(build.Variant(), "asan")
        return 0
    if a[0] == "replay":
        return check.replay_file(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    total = None
    ids = []
    i = 0
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--deadline": total = float(a[i + 1]); i += 1
        else: ids.append(a[i])
        i += 1
    rc = 0
    for p in ids:
        rc |= check.run_check(p, tier, int(os.environ.get("VERIF_SEED", "1") or 1), total)
    return rc
try:
    rc = main()
except build.BuildError as e:
    print("check could not be built or run: %s" % e)
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 3
sys.exit(rc)
