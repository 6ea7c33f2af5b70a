#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--case NAME] [--cfg k=v] [-v] [--budget S] [--jobs N] [--mod HARNESS]"""
import os
import sys

PY = "/opt/veriftools/pyvenv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or sys.executable != PY:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PY, [PY] + sys.argv)

import argparse     # noqa: E402

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", action="append")
    ap.add_argument("--cfg", action="append", default=[])
    ap.add_argument("--mod", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    from symx import runner
    return runner.run_property(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1), only=a.case, budget=a.budget,
                               jobs=a.jobs, verbose=a.v, modules=a.mod, cfg_filter=[tuple(c.split("=")) for c in a.cfg] or None)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
