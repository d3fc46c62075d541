"""python3-vt -m pyvc.run contracts.<mod> [filter]   -- development driver"""
import importlib
import os
import sys
import time
import traceback

from .exec import Engine
from .discharge import discharge
from .world import Unsupported


def generate(world, keys=None, secs=60):
    """-> list of (key, contract, fi, engine, error)"""
    out = []
    for key, con in world.contracts.items():
        if con.trusted or (keys is not None and key not in keys):
            continue
        fi = world.func(con.target)
        if fi is None:
            out.append((key, con, None, None, "function not found in /repo"))
            continue
        eng = Engine(world)
        eng.deadline = time.time() + secs
        try:
            eng.verify(con, fi)
            out.append((key, con, fi, eng, None))
        except Unsupported as e:
            out.append((key, con, fi, eng, "unsupported: %s" % e))
        except RecursionError:
            out.append((key, con, fi, eng, "engine recursion"))
        except Exception as e:  # engine bug: never an alarm
            out.append((key, con, fi, eng, "engine error: %r\n%s" % (e, traceback.format_exc())))
    return out


def main():
    mod = importlib.import_module(sys.argv[1])
    w = mod.world(sys.argv[3] if len(sys.argv) > 3 else "/repo")
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    keys = [k for k in w.contracts if flt in k]
    t0 = time.time()
    gen = generate(w, keys)
    jobs = []
    for key, con, fi, eng, err in gen:
        if err:
            print("!!", key, err)
            if not err.startswith("engine"):
                continue
            continue
        lab = os.environ.get("PYVC_LABEL")
        if lab:
            eng.obs = [o for o in eng.obs if lab in o.label]
        for ob in eng.obs:
            jobs.append((eng.ax, ob, float(os.environ.get("PYVC_TMO", 0)) or con.timeout))
    print("generated", len(jobs), "obligations in %.1fs" % (time.time() - t0))
    discharge(jobs)
    for key, con, fi, eng, err in gen:
        if err:
            continue
        goals = [o for o in eng.obs if o.goal is not None]
        ok = [o for o in goals if o.status == "proved"]
        rs = [o.status for o in eng.obs if o.kind == "reach"]
        cv = [o.status for o in eng.obs if o.kind == "cover"]
        tt = sum(o.time for o in eng.obs)
        vac = "VACUOUS!" if "unsat" in cv or (rs and all(x == "unsat" for x in rs)) else ""
        print(f"{'OK ' if len(ok)==len(goals) else 'XX '} {key}: {len(ok)}/{len(goals)}  paths={len(rs)} {tt:.1f}s {vac}")
        for o in goals:
            if o.status != "proved" or o.time > 8:
                print(f"      [{o.kind}] {o.label} line {o.line}: {o.status} {o.backend} {o.time:.1f}s")
    print("total %.1fs" % (time.time() - t0))


if __name__ == "__main__":
    main()
