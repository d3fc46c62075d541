"""Bounded stand-ins: run check units against the real code of /repo (no model).

A unit is a call fn(ctx, *args) of a property module.  Units run in forked workers with a
time limit.  A failure of the property is ctx.fail(...) or an exception raised inside code
of /repo; exceptions raised by the harness itself (for instance because a private name it
observes was renamed) make the unit undecided and never raise an alarm."""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "comb_spec_searcher") + os.sep


class Violation(Exception):
    def __init__(self, key, what, data=None):
        super().__init__(f"{key}: {what}")
        self.key, self.what, self.data = key, what, data


class Skip(Exception):
    """the unit does not apply (e.g. no specification exists)"""


class Ctx:
    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.notes = {}
        self.input = None  # description of the current concrete input
        self.fails = []

    def ev(self, what=None, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial and what is not None and len(self.nontrivial) < 200000:
            self.nontrivial.add(
                hashlib.blake2b(repr(what).encode(), digest_size=8).digest()
            )
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def check(self, cond, key, what, data=None):
        if not cond:
            raise Violation(key, what() if callable(what) else what, data or self.input)

    def fail(self, key, what, data=None):
        """record a failure without aborting the unit (one per key)"""
        if key not in {f[0] for f in self.fails} and len(self.fails) < 20:
            self.fails.append((key, what, data or self.input))


class Unit:
    def __init__(self, name, fn, *args, timeout=60, hang=False):
        self.name, self.fn, self.args = name, fn, args
        self.timeout, self.hang = timeout, hang


def repo_frames(tb):
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(PKG)]


def _run(unit, seed, tier):
    ctx = Ctx(seed, tier)
    random.seed(hash_int(f"{seed}/{unit.name}"))
    res = {"status": "ok", "fails": []}
    try:
        unit.fn(ctx, *unit.args)
    except Violation as v:
        res["fails"].append((v.key, v.what, v.data))
    except Skip as s:
        res["status"] = "skip"
        res["why"] = str(s)
    except AssertionError as e:
        _exc(res, ctx, e)
    except Exception as e:  # pylint: disable=broad-except
        _exc(res, ctx, e)
    except RecursionError as e:
        _exc(res, ctx, e)
    res["fails"] = ctx.fails + res["fails"]
    res.update(evals=ctx.evals, nt=ctx.nontrivial, samples=ctx.samples, notes=ctx.notes)
    return res


def _exc(res, ctx, e):
    fr = repo_frames(e.__traceback__)
    txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    if len(txt) > 6000:
        txt = txt[:3000] + "\n...\n" + txt[-3000:]
    if fr:
        f = fr[-1]
        res["fails"].append(
            (f"exception:{type(e).__name__}:{os.path.basename(f.filename)}:{f.name}",
             f"{type(e).__name__}: {str(e)[:300]} raised in {f.name} ({os.path.basename(f.filename)}:{f.lineno})",
             {"input": ctx.input, "traceback": txt})
        )
    else:
        res["status"] = "harness"
        res["why"] = txt


def hash_int(s):
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], "big")


def unit_rng(ctx, name):
    return random.Random(hash_int(f"{ctx.seed}/{name}"))


def run_units(units, seed, tier, nproc=None, budget=None, max_fail=3, known=()):
    """-> aggregated dict"""
    nproc = nproc or int(os.environ.get("VERIF_NPROC", "0")) or (os.cpu_count() or 4)
    t0 = time.time()
    agg = {"units": len(units), "ran": 0, "skipped": 0, "not_run": 0, "harness": [], "hung": [],
           "evals": 0, "nt": set(), "samples": [], "notes": {}, "fails": []}
    pend = list(range(len(units)))
    pend.reverse()
    retry = {}
    live = {}
    keys = set()

    def newfails():
        return [k for k in keys if k not in known]

    while pend or live:
        while pend and len(live) < nproc:
            if budget and time.time() - t0 > budget:
                agg["not_run"] += len(pend)
                pend.clear()
                break
            if len(newfails()) >= max_fail:
                agg["not_run"] += len(pend)
                pend.clear()
                break
            i = pend.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    out = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(out, 1)
                    res = _run(units[i], seed, tier)
                except BaseException as exc:  # pylint: disable=broad-except
                    res = {"status": "harness", "why": repr(exc), "fails": [], "evals": 0,
                           "nt": set(), "samples": [], "notes": {}}
                try:
                    data = pickle.dumps(res)
                except Exception:  # pylint: disable=broad-except
                    res["fails"] = [(k, str(wh), str(d)[:5000]) for k, wh, d in res["fails"]]
                    res["samples"] = [str(s) for s in res["samples"]]
                    data = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            live[r] = [pid, i, time.time(), b""]
        if not live:
            break
        rl, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            pid, i, ts, buf = live[fd]
            done = False
            if fd in rl:
                d = os.read(fd, 1 << 16)
                if d:
                    live[fd][3] = buf + d
                    continue
                done = True
            u = units[i]
            if not done and now - ts > u.timeout * (1 + retry.get(i, 0)):
                os.kill(pid, signal.SIGKILL)
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                if u.hang and retry.get(i, 0) < 1:
                    retry[i] = 2  # one more try with three times the limit
                    pend.append(i)
                elif u.hang:
                    agg["fails"].append((u.name, f"hang:{u.name.split('/')[0]}",
                                         f"no answer within {u.timeout * 3} s (a small multiple of "
                                         "a second on the verified tree)", {"unit": u.name}))
                    keys.add(f"hang:{u.name.split('/')[0]}")
                else:
                    agg["hung"].append(u.name)
                continue
            if done:
                os.close(fd)
                os.waitpid(pid, 0)
                buf = live.pop(fd)[3]
                try:
                    res = pickle.loads(buf)
                except Exception:  # pylint: disable=broad-except
                    agg["harness"].append((u.name, "worker died"))
                    continue
                agg["ran"] += 1
                agg["evals"] += res["evals"]
                agg["nt"] |= res["nt"]
                if len(agg["samples"]) < 5:
                    agg["samples"].extend(res["samples"][: 5 - len(agg["samples"])])
                for k, n in res["notes"].items():
                    agg["notes"][k] = agg["notes"].get(k, 0) + n
                if res["status"] == "skip":
                    agg["skipped"] += 1
                if res["status"] == "harness":
                    agg["harness"].append((u.name, res["why"]))
                for k, wh, d in res["fails"]:
                    if k not in keys:
                        agg["fails"].append((u.name, k, wh, d))
                        keys.add(k)
    agg["nontrivial"] = len(agg.pop("nt"))
    agg["wall"] = time.time() - t0
    return agg
