#!/usr/bin/env python3
"""check.py <property id> [...]: run static checks.  Exit 0 held, 1 VIOLATION, 2 analysis broken."""
import importlib
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv, out):
    from sa.fw import Suite, Check
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = argv
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa", "checks"))
                     if f.startswith("c") and f.endswith(".py"))
    rc = 0
    suite = Suite()
    for pid in ids:
        try:
            m = importlib.import_module("sa.checks." + pid.lower())
            c = Check(pid, tier)
            m.run(suite, c)
            r = c.finish()
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s" % pid)
            r = 2
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    out.append(rc)


if __name__ == "__main__":
    out = []
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=main, args=(sys.argv[1:], out))
    th.start()
    th.join()
    sys.stdout.flush()
    sys.exit(out[0] if out else 2)
