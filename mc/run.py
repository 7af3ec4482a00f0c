#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import clock  # noqa: E402,F401


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.environ["VERIF_TIER"] = a.tier
    mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        return mod.replay(rec) if hasattr(mod, "replay") else generic_replay(mod, rec)
    return mod.main(a.tier)


def generic_replay(mod, rec):
    """Re-executes the recorded trace of a scenario on the current tree and shows every step."""
    scns = {s[0].name: s[0] for s in mod.scenarios(rec.get("tier", "quick"))} if hasattr(mod, "scenarios") else {}
    s = scns.get(rec["scenario"])
    if s is None:
        print(json.dumps(rec, indent=1))
        return 0
    from mc.explore import Violation
    s.setup()
    try:
        for o in rec["trace"]:
            o = _tuplify(o)
            print("step", o)
            s.apply(o)
            s.invariant()
    except Violation as e:
        print("VIOLATED:", e.msg)
        return 1
    print("no violation on replay")
    return 0


def _tuplify(o):
    return tuple(_tuplify(x) for x in o) if isinstance(o, list) else o


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
