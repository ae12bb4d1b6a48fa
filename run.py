#!/opt/venv/bin/python
"""run.py check <ID> [--tier quick|thorough] [--seed N] [--only SUB,...] [--scale F]
run.py replay <file>
run.py list"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import env  # noqa

env.setup()
from pbt import core  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "list"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    core.load_checks()
    if a.cmd == "list":
        for p in sorted(core.REGISTRY):
            for s in core.REGISTRY[p]:
                print(p, s.name, s.quick, s.thorough)
        return 0
    if a.cmd == "replay":
        r = json.load(open(a.arg))
        core.KNOWN = core.known_findings()
        s = next(s for s in core.REGISTRY[r["property"]] if s.name == r["sub"])
        try:
            core.exec_case(s, r["case"], core.Rec(r["property"]))
        except core.Violation as e:
            print(str(e))
            print("VIOLATION property=%s replay=%s" % (r["property"], a.arg))
            return 1
        print("held on", a.arg)
        return 0
    return core.run_property(a.arg, a.tier, a.seed, a.only.split(",") if a.only else None, a.scale)


if __name__ == "__main__":
    sys.exit(main())
