"""python3-vt lib/deduct.py CXX --out FILE: generate and discharge every obligation of the
contracts registered for property CXX from the current source of /repo."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from lib.props import CONTRACTS  # noqa: E402
from pyvc.run import generate  # noqa: E402
from pyvc.discharge import discharge  # noqa: E402


def loops_sig(w, quals):
    import ast
    out = []
    for q in quals:
        fi = w.func(q)
        if fi is None:
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                out.append(type(n).__name__)
    return sorted(out)


def run(prop, repo, budget, only=None):
    t0 = time.time()
    res = {"functions": {}, "assumptions": [], "wall": 0}
    deadline = t0 + budget
    jobs = []
    gens = []
    for mname in CONTRACTS.get(prop, []):
        mod = importlib.import_module("contracts." + mname)
        w = mod.world(repo)
        for note, *_ in w.axiom_notes:
            res["assumptions"].append(f"[{mname}] axiom: {note}")
        for key, con in w.contracts.items():
            if con.trusted and con.note:
                res["assumptions"].append(f"[{mname}] trusted contract {key}: {con.note}")
        for q, con in w.externs.items():
            if getattr(con, "note", ""):
                res["assumptions"].append(f"[{mname}] external {q}: {con.note}")
        for a in getattr(mod, "ASSUMPTIONS", []):
            res["assumptions"].append(f"[{mname}] {a}")
        keys = [k for k, c in w.contracts.items()
                if prop in c.props and not c.trusted and (only is None or k in only)]
        for key, con, fi, eng, err in generate(w, keys, secs=max(10, budget / 3)):
            quals = [fi.qual] + sorted(eng.inlined) if eng is not None and fi is not None else []
            h = hashlib.sha256()
            for q in quals:
                f2 = w.func(q)
                if f2 is not None:
                    import ast
                    h.update(ast.dump(f2.node).encode())
            e = {"module": mname, "hash": h.hexdigest()[:16], "error": err, "inlined": quals[1:],
                 "loops": loops_sig(w, quals), "obs": [], "dropped": sorted(getattr(eng, "dropped", []) or [])}
            for note_, ex in con.requires_assume:
                res["assumptions"].append(f"[{mname}] {key}: assumed: {note_}")
            for x in sorted(getattr(eng, "assumed", []) or []):
                if f"[{mname}] {x}" not in res["assumptions"]:
                    res["assumptions"].append(f"[{mname}] {x}")
            res["functions"][f"{mname}:{key}"] = e
            gens.append((e, con, eng, err))
            if not err:
                for ob in eng.obs:
                    jobs.append((eng.ax, ob, con.timeout))
    res["gen_s"] = time.time() - t0
    discharge(jobs, deadline=deadline)
    # one more, slower try for what was not settled
    again = [j for j in jobs if j[1].goal is not None and j[1].status == "unknown"]
    if again and time.time() < deadline:
        discharge([(a, o, 3 * (t or 12)) for a, o, t in again], deadline=deadline)
    for e, con, eng, err in gens:
        if err:
            continue
        covers = [o.status for o in eng.obs if o.kind == "cover"]
        reach = [o.status for o in eng.obs if o.kind == "reach"]
        e["vacuous"] = ("unsat" in covers) or (bool(reach) and all(x == "unsat" for x in reach))
        for o in eng.obs:
            if o.goal is None:
                continue
            e["obs"].append([o.kind, o.label, o.line, o.status, o.backend, round(o.time, 3),
                             (o.model or "")[:2000] if o.status != "proved" else ""])
    res["wall"] = time.time() - t0
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--budget", type=float, default=300)
    a = ap.parse_args()
    r = run(a.prop, a.repo, a.budget)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(r, f)
        return
    for k, e in r["functions"].items():
        ok = sum(1 for o in e["obs"] if o[3] == "proved")
        print(("OK " if not e["error"] and ok == len(e["obs"]) else "XX "), k, f"{ok}/{len(e['obs'])}",
              e["error"] or "", "VACUOUS" if e.get("vacuous") else "")
    print("wall %.1f" % r["wall"])


if __name__ == "__main__":
    main()
