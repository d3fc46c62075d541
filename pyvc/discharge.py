"""Discharging obligations: z3 (API) first, then other back ends on the SMT-LIB text."""
import os
import pickle
import select
import signal
import subprocess
import tempfile
import time

import z3

GOALK = ("pre", "post", "inv", "frame", "loop-init", "loop-pres", "noraise", "raises",
         "type", "hint")


def _solver(ax, ob, timeout_ms, opts=()):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for k, v in opts:
        s.set(k, v)
    for a in ax:
        s.add(a)
    for f in ob.pc:
        s.add(f)
    if ob.goal is not None:
        s.add(z3.Not(ob.goal))
    return s


def _external(smt, cmd, secs):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
    try:
        r = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=secs + 2)
        for line in r.stdout.splitlines():
            if line.strip() in ("sat", "unsat", "unknown"):
                return line.strip()
        return "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(f.name)


def check_one(ax, ob, tmo):
    """-> (status, backend, secs, model)"""
    t0 = time.time()
    if ob.goal is None:
        s = _solver(ax, ob, min(1500, tmo * 1000))
        r = s.check()
        if r == z3.unsat:
            # believed only if a second run, with another seed, agrees
            r = _solver(ax, ob, 10000, (("random_seed", 11),)).check()
        return (str(r), "z3", time.time() - t0, None)
    s = _solver(ax, ob, min(tmo, 3) * 1000)
    r = s.check()
    if r == z3.unsat:
        return ("proved", "z3-api", time.time() - t0, None)
    model = None
    if r == z3.sat:
        try:
            model = str(s.model())[:4000]
        except z3.Z3Exception:
            model = None
        return ("refuted", "z3-api", time.time() - t0, model)
    reason = s.reason_unknown()
    smt = None
    try:
        smt = s.to_smt2()
    except z3.Z3Exception:
        pass

    def ematch(opts, secs):
        s2 = z3.SimpleSolver()
        s2.set("timeout", int(secs * 1000))
        for k, v in opts:
            try:
                s2.set(k, v)
            except z3.Z3Exception:
                pass
        for f in list(ax) + list(ob.pc) + [z3.Not(ob.goal)]:
            s2.add(f)
        return s2.check() == z3.unsat

    A = (("smt.mbqi", False), ("smt.random_seed", 7))
    B = (("smt.mbqi", False), ("smt.arith.solver", 2), ("smt.random_seed", 3))
    for secs in (3, tmo):
        if secs > tmo:
            continue
        if ematch(A, secs) or ematch(B, secs):
            return ("proved", "z3-api/ematching", time.time() - t0, None)
        if smt and "(lambda" not in smt:
            r = _external("(set-logic ALL)\n" + smt, ["cvc5", "--tlimit=%d" % int(secs * 1000)], secs)
            if r == "unsat":
                return ("proved", "cvc5", time.time() - t0, None)
        if smt:
            r = _external(smt, ["z3-new", "-T:%d" % int(secs)], secs)
            if r == "unsat":
                return ("proved", "z3-new", time.time() - t0, None)
    return ("unknown", "z3-api,cvc5,z3-new: " + reason, time.time() - t0, model)


def discharge(jobs, nproc=None, default_tmo=12, deadline=None, progress=None):
    """jobs: list of (ax, ob, tmo|None). Fills ob.status etc. One forked child per obligation."""
    nproc = nproc or max(1, (os.cpu_count() or 2) - 1)
    pend = list(range(len(jobs)))
    # interface obligations and cheap ones first keeps the tail short
    live = {}  # fd -> (pid, idx, start, buf)
    while pend or live:
        while pend and len(live) < nproc:
            i = pend.pop(0)
            ax, ob, tmo = jobs[i]
            tmo = tmo or default_tmo
            if deadline and time.time() > deadline:
                ob.status, ob.backend = "unknown", "not run: time budget"
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = check_one(ax, ob, tmo)
                except BaseException as exc:  # pylint: disable=broad-except
                    res = ("unknown", "error: %r" % (exc,), 0.0, None)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res))
                os._exit(0)
            os.close(w)
            live[r] = (pid, i, time.time(), b"", tmo * 6 + 10)
        if not live:
            break
        rl, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            pid, i, t0, buf, hard = live[fd]
            done = False
            if fd in rl:
                d = os.read(fd, 65536)
                if d:
                    live[fd] = (pid, i, t0, buf + d, hard)
                else:
                    done = True
            if not done and now - t0 > hard:
                os.kill(pid, signal.SIGKILL)
                buf, done = b"", True
            if done:
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                ob = jobs[i][1]
                if buf:
                    ob.status, ob.backend, ob.time, ob.model = pickle.loads(buf)
                else:
                    ob.status, ob.backend, ob.time = "unknown", "killed/hard timeout", now - t0
                if progress:
                    progress(ob)
