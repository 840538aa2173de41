"""The simulated environment around the real diffrax code, built on public extension points:

* ScriptedController  - the scheduler: a data-driven accept/reject/step-size/jump/error script;
* Recorder            - wraps a real controller and records every attempt it is shown;
* FaultySolver        - wraps a real method and injects faults into chosen attempts.

All decisions are *data* (arrays), so one compiled configuration executes many schedules.
"""
from __future__ import annotations
import os, sys
import numpy as np
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import equinox as eqx
import optimistix as optx
import diffrax as dfx
from jax.flatten_util import ravel_pytree
from . import ref

jax.config.update("jax_enable_x64", True)


# ----------------------------------------------------------------- logs

class Log(eqx.Module):
    n: jax.Array
    t0: jax.Array
    t1: jax.Array
    y0: jax.Array
    y1: jax.Array
    err: jax.Array
    keep: jax.Array
    tprev: jax.Array
    tnext: jax.Array

    @staticmethod
    def make(N, y0, t):
        v, _ = ravel_pytree(y0)
        td = jnp.result_type(t, float) if not hasattr(t, "dtype") else t.dtype
        z = jnp.zeros(N, td)
        Y = jnp.zeros((N, v.shape[0]), v.dtype)
        return Log(jnp.array(0), z, z, Y, Y, Y, jnp.zeros(N, bool), z, z)

    def put(self, t0, t1, y0, y1, err, keep, tprev, tnext):
        k = self.n
        r = lambda x: ravel_pytree(x)[0]
        e = jnp.full_like(self.err[0], -1.0) if err is None else r(err).astype(self.err.dtype)
        return Log(k + 1, self.t0.at[k].set(t0), self.t1.at[k].set(t1),
                   self.y0.at[k].set(r(y0)), self.y1.at[k].set(r(y1)), self.err.at[k].set(e),
                   self.keep.at[k].set(keep), self.tprev.at[k].set(tprev), self.tnext.at[k].set(tnext))


def read_log(log):
    n = int(log.n)
    g = lambda x: np.asarray(x)[:n]
    return dict(n=n, t0=g(log.t0), t1=g(log.t1), y0=g(log.y0), y1=g(log.y1), err=g(log.err),
                keep=g(log.keep), tprev=g(log.tprev), tnext=g(log.tnext))


# ----------------------------------------------------------------- scheduler

CODES = ("successful", "dt_min_reached", "max_steps_rejected", "internal_error")


class ScriptedController(dfx.AbstractAdaptiveStepSizeController):
    """Attempt k is accepted iff keep[k]; the step proposed after it has length dt[k] (in the
    normalised forward time of the solve); jump[k] marks a jump of width gap[k] after it;
    code[k] != 0 reports controller error CODES[code[k]]."""
    keep: jax.Array
    dt: jax.Array
    code: jax.Array
    jump: jax.Array
    gap: jax.Array
    with_jump: bool = eqx.field(static=True)
    with_code: bool = eqx.field(static=True)
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = eqx.field(static=True, default=optx.rms_norm)
    record: bool = eqx.field(static=True, default=True)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, (jnp.array(0), Log.make(self.keep.shape[0], y0, t0) if self.record else None)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        k, log = controller_state
        keep = self.keep[k]
        tprev = jnp.where(keep, t1, t0)
        if self.with_jump:
            made_jump = self.jump[k] & keep
            tprev = tprev + jnp.where(made_jump, self.gap[k], 0).astype(tprev.dtype)
        else:
            made_jump = False
        tnext = tprev + self.dt[k].astype(tprev.dtype)
        result = dfx.RESULTS.successful
        if self.with_code:
            for i, c in enumerate(CODES):
                if i:
                    result = dfx.RESULTS.where(self.code[k] == i, getattr(dfx.RESULTS, c), result)
        if self.record:
            log = log.put(t0, t1, y0, y1_candidate, y_error, keep, tprev, tnext)
        return keep, tprev, tnext, made_jump, (k + 1, log), result


class PlainScripted(dfx.AbstractStepSizeController):
    """The same scheduler, but not declared adaptive (for methods that refuse adaptive control)."""
    inner: ScriptedController

    def wrap(self, direction):
        return self

    def init(self, *a): return self.inner.init(*a)
    def adapt_step_size(self, *a): return self.inner.adapt_step_size(*a)


class _Recorder:
    def wrap(self, direction):
        return type(self)(self.inner.wrap(direction), self.N)

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        tn, s = self.inner.init(terms, t0, t1, y0, dt0, args, func, error_order)
        return tn, (s, Log.make(self.N, y0, t0))

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        s, log = controller_state
        keep, tprev, tnext, jump, s, result = self.inner.adapt_step_size(
            t0, t1, y0, y1_candidate, args, y_error, error_order, s)
        log = log.put(t0, t1, y0, y1_candidate, y_error, keep, tprev, tnext)
        return keep, tprev, tnext, jump, (s, log), result


class FixedRecorder(_Recorder, dfx.AbstractStepSizeController):
    """Transparent recorder around a real non-adaptive controller."""
    inner: dfx.AbstractStepSizeController
    N: int = eqx.field(static=True)


class AdaptiveRecorder(_Recorder, dfx.AbstractAdaptiveStepSizeController):
    """Transparent recorder around a real adaptive controller."""
    inner: dfx.AbstractStepSizeController
    N: int = eqx.field(static=True)

    @property
    def rtol(self): return self.inner.rtol
    @property
    def atol(self): return self.inner.atol
    @property
    def norm(self): return self.inner.norm


def Recorder(inner, N):
    c = inner.controller if isinstance(inner, dfx.ClipStepSizeController) else inner
    if isinstance(inner, dfx.AbstractAdaptiveStepSizeController) or isinstance(c, dfx.AbstractAdaptiveStepSizeController):
        return AdaptiveRecorder(inner, N)
    return FixedRecorder(inner, N)


# ----------------------------------------------------------------- faults

FAULT_KINDS = ("none", "fail", "nan_state", "nan_error", "inf_error", "big_error", "nan_all")


class FaultySolver(dfx.AbstractWrappedSolver):
    """Injects fault kind[j] into any attempted step ending at (about) t1[j]."""
    solver: dfx.AbstractSolver
    at: jax.Array      # end time (normalised time) of the attempts to disturb
    start: jax.Array   # start time of the attempts to disturb
    kind: jax.Array    # index into FAULT_KINDS

    @property
    def term_structure(self): return self.solver.term_structure
    @property
    def interpolation_cls(self): return self.solver.interpolation_cls
    @property
    def term_compatible_contr_kwargs(self): return self.solver.term_compatible_contr_kwargs
    @property
    def root_finder(self): return self.solver.root_finder
    @property
    def root_find_max_steps(self): return self.solver.root_find_max_steps

    def order(self, terms): return self.solver.order(terms)
    def strong_order(self, terms): return self.solver.strong_order(terms)
    def error_order(self, terms): return self.solver.error_order(terms)
    def init(self, terms, t0, t1, y0, args): return self.solver.init(terms, t0, t1, y0, args)
    def func(self, terms, t0, y0, args): return self.solver.func(terms, t0, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        y1, err, dense, state, result = self.solver.step(terms, t0, t1, y0, args, solver_state, made_jump)
        hit = (jnp.abs(self.at - t1) < 1e-9) & (jnp.abs(self.start - t0) < 1e-9)
        kind = jnp.max(jnp.where(hit, self.kind, 0), initial=0)
        nan_if = lambda pred: (lambda x: jnp.where(pred, jnp.nan, x) if eqx.is_inexact_array(x) else x)
        poison = (kind == 2) | (kind == 6)
        y1 = jtu.tree_map(nan_if(poison), y1)
        state = jtu.tree_map(nan_if((kind == 6) | (kind == 1)), state)
        dense = jtu.tree_map(nan_if(kind == 6), dense)
        if err is not None:
            err = jtu.tree_map(nan_if((kind == 3) | (kind == 6)), err)
            err = jtu.tree_map(lambda x: jnp.where((kind == 4) | (kind == 1), jnp.inf, jnp.where(kind == 5, 1e6, x)), err)
        result = dfx.RESULTS.where(kind == 1, dfx.RESULTS.promote(optx.RESULTS.nonlinear_divergence), result)
        return y1, err, dense, state, result


def no_faults(n=1):
    return dict(at=np.full(n, -1e9), start=np.full(n, -1e9), kind=np.zeros(n, np.int32))


# ----------------------------------------------------------------- problems as diffrax objects

class Shape:
    """State layouts, all equivalent to a flat vector."""
    def __init__(self, kind):
        self.kind = kind
        self.d = {"scalar": 1, "vec3": 3, "tree": 4, "pair": 4, "mat": 4}[kind]

    def pack(self, v):
        k = self.kind
        if k == "scalar": return v[0]
        if k == "vec3": return v
        if k == "mat": return v.reshape(2, 2)
        if k == "pair": return (v[:2], v[2:])
        return {"a": v[0], "b": (v[1:3], v[3:4])}

    def unpack(self, y):
        if self.kind == "tree":
            return jnp.concatenate([y["a"][None], y["b"][0], y["b"][1]])
        if self.kind == "scalar":
            return y[None]
        if self.kind == "pair":
            return jnp.concatenate(y)
        return y.reshape(-1)

    def flat(self, ys):
        """numpy: batch-leading pytree -> (n, d)"""
        k = self.kind
        if k == "tree":
            return np.concatenate([np.asarray(ys["a"])[:, None], np.asarray(ys["b"][0]), np.asarray(ys["b"][1])], 1)
        if k == "pair":
            return np.concatenate([np.asarray(ys[0]), np.asarray(ys[1])], 1)
        if k == "scalar":
            return np.asarray(ys)[:, None]
        ys = np.asarray(ys)
        return ys.reshape(ys.shape[0], -1)


def make_solver(name, scan_kind=None, chord=False):
    """Implicit methods use Newton's method by default; the built-in chord method (which gives up
    after two iterations) is used with the linear variant of the problem, where it is exact."""
    if name.startswith("Half:"):
        return dfx.HalfSolver(make_solver(name[5:], scan_kind, chord))
    cls = getattr(dfx, name)
    kw = {}
    if name in ref.IMPLICIT:
        kw["root_finder"] = (dfx.VeryChord(rtol=1e-9, atol=1e-9, norm=optx.max_norm) if chord
                             else optx.Newton(rtol=1e-9, atol=1e-9, norm=optx.max_norm))
        kw["root_find_max_steps"] = 60
        if name != "ImplicitEuler" and scan_kind is not None:
            kw["scan_kind"] = scan_kind
    elif name in ref.ERK and scan_kind is not None:
        kw["scan_kind"] = scan_kind
    return cls(**kw)


def make_terms(name, shape, mod=None):
    """`args` is the parameter vector p; `mod(t, f, args)` may modify vector-field values."""
    base = name[5:] if name.startswith("Half:") else name
    m = (lambda t, f, a: f) if mod is None else mod
    P = lambda a: a["p"] if isinstance(a, dict) else a
    if base == "SemiImplicitEuler":
        assert shape.kind == "pair"
        return (dfx.ODETerm(lambda t, b, a: m(t, ref.vf_a(t, b, P(a), jnp), a)),
                dfx.ODETerm(lambda t, x, a: m(t, ref.vf_b(t, x, P(a), jnp), a)))
    if base in ref.IMEX:
        return dfx.MultiTerm(
            dfx.ODETerm(lambda t, y, a: shape.pack(m(t, ref.vf_ex(t, shape.unpack(y), P(a), jnp), a))),
            dfx.ODETerm(lambda t, y, a: shape.pack(m(t, ref.vf_im(t, shape.unpack(y), P(a), jnp), a))))
    return dfx.ODETerm(lambda t, y, a: shape.pack(m(t, ref.vf(t, shape.unpack(y), P(a), jnp), a)))


def make_adjoint(spec):
    kind, *rest = spec.split(":")
    if kind == "rec":
        return dfx.RecursiveCheckpointAdjoint(*(int(x) for x in rest))
    return {"direct": dfx.DirectAdjoint, "forward": dfx.ForwardMode, "implicit": dfx.ImplicitAdjoint,
            "backsolve": dfx.BacksolveAdjoint}[kind]()


def result_name(result):
    for n in ("successful", "max_steps_reached", "dt_min_reached", "event_occurred",
              "max_steps_rejected", "internal_error"):
        if bool(result == getattr(dfx.RESULTS, n)):
            return n
    return "other"


def jit(fn):
    """jit with the first call separated into build (trace+compile) and run."""
    return eqx.filter_jit(fn)


# ----------------------------------------------------------------- schedule generation (numpy)

def gen_schedule(rng, N, span, faulty=0.0, style=None):
    """A seeded schedule over an interval of length `span` with N attempts available.
    Styles (swarm): how sizes and rejections are distributed."""
    style = style or ["uniform", "geometric", "bursts", "shrink", "tiny_then_big", "overshoot", "clean"][rng.integers(7)]
    typ = span / rng.integers(2, max(3, N // 2))
    rej = {"uniform": 0.35, "geometric": 0.25, "bursts": 0.0, "shrink": 0.5, "tiny_then_big": 0.2,
           "overshoot": 0.4, "clean": 0.0}[style]
    keep = rng.random(N) >= rej
    if style == "bursts":
        k = 0
        while k < N:
            a = int(rng.integers(1, 4)); b = int(rng.integers(0, 4))
            keep[k:k + a] = True; keep[k + a:k + a + b] = False
            k += a + b
    if style in ("uniform", "bursts", "clean"):
        dt = typ * (0.2 + 1.6 * rng.random(N))
    elif style == "geometric":
        dt = typ * 2.0 ** rng.integers(-6, 3, N)
    elif style == "shrink":
        dt = typ * np.ones(N)
        for k in range(1, N):
            dt[k] = dt[k - 1] * 0.5 if not keep[k] else typ * (0.5 + rng.random())
    elif style == "tiny_then_big":
        dt = np.where(rng.random(N) < 0.4, 1e-6 * typ, typ * (0.5 + rng.random(N)))
    else:
        dt = np.where(rng.random(N) < 0.5, span * (1 + rng.random(N)), typ * (0.2 + rng.random(N)))
    return dict(style=style, keep=[bool(x) for x in keep], dt=[float(x) for x in dt],
                dt0=float(typ * (0.3 + rng.random())))


def model_attempts(case, t0, t1):
    """Simple model of the driver for the generator only (to know where attempts will fall; the
    oracle never uses it): list of (start, end) in normalised time."""
    out, tp, tn = [], t0, min(t0 + case["dt0"], t1)
    gap = case.get("gap") or [0.0] * len(case["keep"])
    jump = case.get("jump") or [False] * len(case["keep"])
    for k in range(len(case["keep"])):
        if tp >= t1:
            break
        out.append((tp, tn))
        keep = case["keep"][k]
        tp2 = tn + (gap[k] if jump[k] else 0.0) if keep else tp
        tp2 = min(tp2, t1)
        tn2 = tp2 + case["dt"][k]
        if tn2 > t1 - 1e-13:
            tn2 = t1 if keep else tp2 + 0.5 * (t1 - tp2)
        tp, tn = tp2, tn2
    return out


def schedule_arrays(case, N):
    n = len(case["keep"])
    def arr(key, default, dtype):
        x = list(case.get(key) or [])
        x = x[:N] + [default] * (N - len(x))
        return np.asarray(x, dtype)
    dt = list(case["dt"])[:N]
    dt = dt + [dt[-1] if dt else 1.0] * (N - len(dt))
    return dict(keep=arr("keep", True, bool), dt=np.asarray(dt, float), code=arr("code", 0, np.int32),
                jump=arr("jump", False, bool), gap=arr("gap", 0.0, float))


def shrink_schedule(case):
    """Candidate simplifications of a scripted case, simplest first."""
    import copy
    c = case
    n = len(c["keep"])
    keys = [k for k in ("keep", "dt", "code", "jump", "gap") if c.get(k)]
    def cut(lo, hi):
        d = copy.deepcopy(c)
        for k in keys:
            d[k] = d[k][:lo] + d[k][hi:]
        return d
    size = n // 2
    while size >= 1:
        for lo in range(0, n, size):
            if n - size >= 1:
                yield cut(lo, min(n, lo + size))
        size //= 2
    for i in range(n):
        if not c["keep"][i]:
            d = copy.deepcopy(c); d["keep"][i] = True; yield d
    for k in ("code", "jump"):
        for i in range(len(c.get(k) or [])):
            if c[k][i]:
                d = copy.deepcopy(c); d[k][i] = type(c[k][i])(0); yield d
    if c.get("faults"):
        for i in range(len(c["faults"])):
            d = copy.deepcopy(c); del d["faults"][i]; yield d
    for i in range(n):
        r = float(f"{c['dt'][i]:.1g}")
        if r != c["dt"][i] and r > 0:
            d = copy.deepcopy(c); d["dt"][i] = r; yield d


class NoisyError(dfx.AbstractWrappedSolver):
    """Replaces the error estimate by a chaotic (but deterministic) function of the attempted interval,
    so that a real adaptive controller accepts, rejects, grows and shrinks in every order."""
    solver: dfx.AbstractSolver
    amp: jax.Array

    @property
    def term_structure(self): return self.solver.term_structure
    @property
    def interpolation_cls(self): return self.solver.interpolation_cls
    @property
    def term_compatible_contr_kwargs(self): return self.solver.term_compatible_contr_kwargs
    @property
    def root_finder(self): return self.solver.root_finder
    @property
    def root_find_max_steps(self): return self.solver.root_find_max_steps

    def order(self, terms): return self.solver.order(terms)
    def strong_order(self, terms): return self.solver.strong_order(terms)
    def error_order(self, terms): return 3
    def init(self, terms, t0, t1, y0, args): return self.solver.init(terms, t0, t1, y0, args)
    def func(self, terms, t0, y0, args): return self.solver.func(terms, t0, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        y1, _, dense, state, result = self.solver.step(terms, t0, t1, y0, args, solver_state, made_jump)
        e = jnp.where(t0 == t1, 0.0, noisy_error(t0, t1, self.amp, jnp))   # (an empty step has no error)
        return y1, jtu.tree_map(lambda x: jnp.full_like(x, e), y0), dense, state, result


def noisy_error(t0, t1, amp, xp=np):
    return 10.0 ** (amp * xp.sin(1.3e3 * t1 + 0.7e3 * t0) - 0.3)
