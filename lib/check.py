"""Driver of one property: deductive part + bounded part -> verdict, evidence, replay."""
import argparse
import json
import os
import re
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib.props import CONTRACTS  # noqa: E402
from lib import meta  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = os.path.join(ROOT, "lib", "baseline.json")
KNOWN = os.path.join(ROOT, "known-findings.txt")
VENV = "/opt/venv/bin/python"


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def bounded(prop, tier, seed, budget, known, tag):
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    env = dict(os.environ, PYTHONHASHSEED=str(seed % 1000), PYTHONDONTWRITEBYTECODE="1",
               VERIF_REPO=REPO, PYTHONPATH=REPO + ":" + os.path.join(ROOT, "bounded"))
    cmd = [VENV, "-B", os.path.join(ROOT, "bounded", "run.py"), prop, "--tier", tier,
           "--seed", str(seed), "--out", out, "--budget", str(budget), "--known", "\n".join(known)]
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=ROOT)
    return p, out


def finish(p, out, hard):
    try:
        _, err = p.communicate(timeout=hard)
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        r = {"error": (err or b"").decode(errors="replace")[-3000:]}
    os.unlink(out)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--rebaseline", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    thorough = a.tier == "thorough"
    known = known_findings(prop)
    has_bounded = os.path.exists(os.path.join(ROOT, "bounded", prop.lower() + ".py"))
    has_ded = bool(CONTRACTS.get(prop))
    ded = None
    dp = None
    if has_ded:
        fd, dout = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        dp = subprocess.Popen([sys.executable, "-B", os.path.join(ROOT, "lib", "deduct.py"), prop,
                               "--out", dout, "--repo", REPO, "--budget", "600" if thorough else "240"],
                              cwd=ROOT, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        ded = finish(dp, dout, 800)
    bnd = {}
    if has_bounded:
        p, out = bounded(prop, a.tier, a.seed, 600 if thorough else 240, known, "main")
        bnd = finish(p, out, 800)
    base = {}
    if os.path.exists(BASE):
        with open(BASE) as f:
            base = json.load(f)
    if a.rebaseline:
        if ded and "functions" in ded:
            b = {}
            for k, e in ded["functions"].items():
                b[k] = {"hash": e["hash"], "loops": e["loops"], "error": bool(e["error"]),
                        "proved": sorted({f"{o[0]}|{o[1]}" for o in e["obs"] if o[3] == "proved"}
                                         - {f"{o[0]}|{o[1]}" for o in e["obs"] if o[3] != "proved"})}
            base[prop] = b
            with open(BASE, "w") as f:
                json.dump(base, f, indent=0, sort_keys=True)
    # ---- deductive verdict
    failed, undecided = [], []
    nob = ndis = 0
    backends, solver_s = {}, 0.0
    funcs = []
    if has_ded:
        if not ded or "functions" not in ded:
            undecided.append("deductive run failed: " + (ded or {}).get("error", "")[-500:])
            ded = {"functions": {}, "assumptions": []}
        bp = base.get(prop, {})
        for k, e in ded["functions"].items():
            b = bp.get(k)
            if e["error"]:
                undecided.append(f"{k}: {e['error'].splitlines()[0][:200]}")
                continue
            nob += len(e["obs"])
            good = [o for o in e["obs"] if o[3] == "proved"]
            ndis += len(good)
            for o in e["obs"]:
                solver_s += o[5]
            for o in good:
                backends[o[4]] = backends.get(o[4], 0) + 1
            funcs.append({"function": k, "obligations": len(e["obs"]), "discharged": len(good)})
            if e.get("vacuous"):
                undecided.append(f"{k}: preconditions unsatisfiable (vacuous)")
            bad = [o for o in e["obs"] if o[3] != "proved"]
            for o in bad:
                sig = f"{o[0]}|{o[1]}"
                if b is None or b["hash"] == e["hash"]:
                    undecided.append(f"{k}: {sig} line {o[2]}: {o[3]} (source unchanged)")
                elif sig not in b["proved"] or b["loops"] != e["loops"]:
                    undecided.append(f"{k}: {sig} line {o[2]}: {o[3]} (proof structure changed)")
                elif "time budget" in (o[4] or ""):
                    undecided.append(f"{k}: {sig} line {o[2]}: not run")
                else:
                    failed.append((k, o))
    # ---- bounded verdict
    viol, seen_known = [], set()
    for unit, key, what, data in bnd.get("fails", []):
        if key in known:
            seen_known.add(key)
        else:
            viol.append((unit, key, what, data))
    ext = None
    if failed and not viol and has_bounded and not thorough:
        left = 840 - (time.time() - t0)
        p, out = bounded(prop, "thorough", a.seed + 1000, min(240, max(20, left - 60)), known, "ext")
        ext = finish(p, out, max(30, left - 20))
        for unit, key, what, data in ext.get("fails", []):
            if key in known:
                seen_known.add(key)
            else:
                viol.append((unit, key, what, data))
    for h in bnd.get("harness", []):
        undecided.append(f"bounded unit {h[0]}: {str(h[1])[-300:]}")
    for h in bnd.get("hung", []):
        undecided.append(f"bounded unit {h}: time limit")
    if has_bounded and "error" in bnd:
        undecided.append("bounded run failed: " + bnd["error"][-800:])
    # ---- output
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for n, (unit, key, what, data) in enumerate(viol[:5]):
        path = os.path.join(rdir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": "input", "key": key, "what": what, "unit": unit,
                       "input": data, "failed_obligations": [[k, o[0], o[1], o[2]] for k, o in failed][:20],
                       "rerun": f"{VENV} -B {ROOT}/bounded/run.py {prop} --tier {a.tier} --seed {a.seed} --unit '{unit}'"},
                      f, indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}")
    if failed and not viol:
        path = os.path.join(rdir, f"{prop}-obligation.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": "failed obligation", "failed": [
                {"function": k, "kind": o[0], "obligation": o[1], "line": o[2], "status": o[3],
                 "verifier": o[4], "counterexample_to_induction_or_model": o[6]} for k, o in failed],
                "bounded_search": "no failing input found" if has_bounded else "none"}, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    m = meta.META[prop]
    level = m["level"]
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": f"python3-vt lib/deduct.py {prop}" if has_ded else "none",
        "trusted_base": (ded or {}).get("assumptions", []) + meta.TRUSTED,
        "functions_under_contract": funcs,
        "back_ends": backends, "solver_seconds": round(solver_s, 2),
        "failed_obligations": [f"{k}: {o[0]}|{o[1]} line {o[2]}" for k, o in failed],
        "undecided": undecided[:40],
        "evaluations": bnd.get("evals", 0), "distinct_nontrivial": bnd.get("nontrivial", 0),
        "rule": bnd.get("rule", "none"), "samples": bnd.get("samples", []),
        "bounded": {"bound": bnd.get("bound"), "units": bnd.get("units"), "ran": bnd.get("ran"),
                    "skipped": bnd.get("skipped"), "not_run": bnd.get("not_run"),
                    "notes": bnd.get("notes"), "wall_s": bnd.get("wall")},
        "explanation": m["explain"],
    }
    if ext is not None:
        cov["extended_bounded_search"] = {"evaluations": ext.get("evals"), "ran": ext.get("ran")}
    for k in list(cov):
        if cov[k] is None:
            del cov[k]
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": (ded or {}).get("assumptions", []) + m.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol) + (1 if failed and not viol else 0)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key in known:
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {known[key]}")
    print(f"{prop}: obligations {ndis}/{nob} discharged in {len(funcs)} functions; bounded evaluations "
          f"{bnd.get('evals', 0)} ({bnd.get('ran', 0)} units); undecided {len(undecided)}; {time.time() - t0:.1f}s")
    if undecided and (a.verbose or True):
        for u in undecided[:8]:
            print("  undecided:", u.replace("\n", " ")[:400])
    for _, key, what, _ in viol[:5]:
        print("  ", key, "--", str(what)[:300])
    for k, o in failed[:10]:
        print("   failed obligation", k, o[0], o[1], "line", o[2], o[3])
    for ln in lines:
        print(ln)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    main()
