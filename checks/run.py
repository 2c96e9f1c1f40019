#!/usr/bin/env python3
"""run.py PROPERTY : one check.  Tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Check, CheckError
import importlib

WHERE = {}
for m in ("containers", "text", "httpx", "tmpl", "pipeline"):
    try:
        mod = importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
        continue
    for n in dir(mod):
        if len(n) == 3 and n[0] == "C" and n[1:].isdigit():
            WHERE[n] = getattr(mod, n)


def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        WHERE[prop](c)
        c.parallel_pass()
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR:", e)
        rc = 1 if c.violations else 2
        if c.violations:
            c.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


main()
