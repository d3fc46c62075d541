"""bounded/run.py CXX --tier quick --seed 1 --out FILE [--budget S] [--unit NAME]"""
import argparse
import importlib
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
sys.setrecursionlimit(4000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--unit")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--known", default="")
    a = ap.parse_args()
    import core  # noqa
    import comb_spec_searcher  # noqa
    from logzero import logger
    logger.setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(a.prop.lower())
    units = mod.units(a.tier, a.seed)
    if a.unit:
        units = [u for u in units if u.name.startswith(a.unit)]
    if a.list:
        for u in units:
            print(u.name)
        return
    known = [k for k in a.known.split("\n") if k]
    agg = core.run_units(units, a.seed, a.tier, budget=a.budget, known=known)
    agg["rule"] = mod.RULE
    agg["bound"] = mod.BOUND
    if a.out:
        with open(a.out, "w") as f:
            json.dump(agg, f, default=str)
    else:
        fails, harness = agg.pop("fails"), agg.pop("harness")
        print(json.dumps(agg, indent=1, default=str)[:3000])
        for n, w in harness[:6]:
            print("HARNESS", n, w[-1500:])
        print(len(harness), "harness errors")
        for f in fails:
            print("FAIL", f[0], "|", f[1], "|", f[2])
            d = f[3]
            if isinstance(d, dict) and "traceback" in d:
                print(d["input"])
                print(d["traceback"][-2500:])
            else:
                print("   ", str(d)[:1500])


main()
