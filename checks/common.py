"""Pieces shared by the checks that drive the real loop with a scripted scheduler."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, digest

ODE_METHODS = ["Euler", *ref.ERK, "ImplicitEuler", *ref.ESDIRK, *ref.IMEX, "SemiImplicitEuler",
               "ReversibleHeun", "LeapfrogMidpoint", "Half:Euler", "Half:Tsit5", "Half:ReversibleHeun",
               "Half:Kvaerno3", "Half:LeapfrogMidpoint"]


def gen_interval(rng, direction=None, scale=1.0):
    d = direction if direction is not None else (1 if rng.random() < 0.6 else -1)
    t0 = float(rng.choice([0.0, 0.0, 1.0, -0.7, 2.5, -3.0]))
    span = scale * float(rng.choice([1.0, 0.5, 2.0, 1.3, 0.1]))
    return t0, t0 + d * span, d


def gen_problem(rng, dim, linear=False):
    return dict(y0=[float(x) for x in np.round(rng.normal(size=dim), 3)],
                p=[float(x) for x in np.round([0.5 + rng.random(), 0.2 + rng.random(), 1 + 2 * rng.random(), float(linear)], 3)])


def clip_eps(s1, f32=False):
    return (2e-5 if f32 else 1e-12) * max(1.0, abs(s1))


def check_schedule(log, s0, s1, dt0, f32=False, script_ok=True):
    """History check on the recorded attempts (normalised time): tiling, clipping, no trace of
    rejected attempts.  Returns (violation|None, accepted ends)."""
    n = log["n"]
    eps = clip_eps(s1, f32)
    ends = []
    if n == 0:
        return None, ends
    if not log["t0"][0] == s0:
        return V("first_start", f"first attempt starts at {log['t0'][0]!r}, expected {s0!r}"), ends
    e0 = min(s0 + dt0, s1)
    if abs(log["t1"][0] - e0) > eps:
        return V("first_end", f"first attempt ends at {log['t1'][0]!r}, expected {e0!r}"), ends
    for k in range(n):
        t0, t1, keep = log["t0"][k], log["t1"][k], bool(log["keep"][k])
        if not (t0 < t1 <= s1):
            return V("bad_interval", f"attempt {k} is over [{t0!r}, {t1!r}] with final time {s1!r}"), ends
        tp = min(log["tprev"][k], s1)
        if keep:
            ends.append(tp)
        if k + 1 < n:
            if tp >= s1:
                return V("overrun", f"attempt {k+1} made although attempt {k} reached the final time"), ends
            if log["t0"][k + 1] != tp:
                return V("tiling", f"attempt {k+1} starts at {log['t0'][k+1]!r}, but attempt {k} "
                         f"({'accepted' if keep else 'rejected'}, [{t0!r},{t1!r}]) left the time at {tp!r}"), ends
            p, e = log["tnext"][k], log["t1"][k + 1]
            if p < s1 - eps:
                ok = e == p
            elif keep:
                ok = e == s1 or (p <= s1 and abs(e - p) <= eps)
            else:
                ok = tp < e <= s1
            if not ok:
                return V("step_end", f"attempt {k+1} ends at {e!r}, controller proposed {p!r} (final time {s1!r})"), ends
            ty, fy = log["y0"][k + 1], (log["y1"][k] if keep else log["y0"][k])
            if not np.allclose(ty, fy, rtol=1e-6 if f32 else 1e-12, atol=1e-6 if f32 else 1e-13, equal_nan=True):
                return V("start_state", f"attempt {k+1} starts from {ty}, expected {fy} "
                         f"(attempt {k} was {'accepted' if keep else 'rejected'})"), ends
    return None, ends


def check_steps(log, method, direction, tol, faulted=(), jump=None, init=None):
    """Every attempt is one step of the method from its start state (reference model)."""
    n = log["n"]
    if n == 0:
        return None
    state = method.init(direction * log["t0"][0], log["y0"][0]) if init is None else init
    mj = False
    for k in range(n):
        y0 = log["y0"][k]
        y1, err, st = method.step(direction * log["t0"][k], direction * log["t1"][k], y0, state, mj)
        keep = bool(log["keep"][k])
        if k not in faulted:
            if not ref.close(log["y1"][k], y1, tol):
                return V("step_value", f"attempt {k} over [{log['t0'][k]}, {log['t1'][k]}] (direction {direction}) gave "
                         f"{log['y1'][k]}, one step of {method.name} gives {y1}; "
                         f"history: {''.join('a' if x else 'r' for x in log['keep'][:k])}")
            if err is not None and not (np.all(log["err"][k] == -1.0) and False):
                if not ref.close(np.abs(log["err"][k]), np.abs(err), max(tol, 1e-8)):
                    return V("step_error", f"attempt {k} reported error estimate {log['err'][k]}, {method.name} gives {err}")
        if keep:
            state = st
            mj = bool(jump[k]) if jump is not None else False
    return None


def check_stats(stats, log):
    n, a = log["n"], int(np.sum(log["keep"]))
    got = (int(stats["num_steps"]), int(stats["num_accepted_steps"]), int(stats["num_rejected_steps"]))
    if got != (n, a, n - a):
        return V("stats", f"reported (attempts, accepted, rejected) = {got}, actual {(n, a, n - a)}")
    return None


def pattern(log):
    return "".join("a" if x else "r" for x in log["keep"])
