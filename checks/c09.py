"""C09: adaptive step control is safe and makes progress."""
from __future__ import annotations
import math
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one solve under the real PIDController fed with seeded error estimates (zero, tiny, ordinary, huge, infinite, NaN; bursts) or "
         "with a vector field that fails on large steps; non-trivial = at least one rejected, forced or limited step; distinct by (configuration, "
         "accept/reject word, word of limits met)",
    measure="distinct (configuration, accept/reject word, limit word: factormin/factormax/safety/dtmin/dtmax per attempt)",
    real=["PIDController", "diffeqsolve loop (NaN handling, clipping)", "explicit and implicit methods (explode jobs)"],
    stub=["error estimate shown to the controller (script jobs)"],
    assumptions=["scaled errors within 1e-9 of the acceptance threshold are not judged", "initial step size with dt0=None is only required to be positive and within bounds"],
)
N = 96
ORDER = dict(Heun=2, Midpoint=2, Ralston=2, Bosh3=3, Tsit5=5, Dopri5=5, Dopri8=8, ReversibleHeun=2, ImplicitEuler=2, Kvaerno3=3, Kvaerno4=4,
             Kvaerno5=5, KenCarp3=3, KenCarp4=4, KenCarp5=5, Sil3=2, **{"Half:Euler": 2, "Half:Tsit5": 6, "Half:Heun": 3})


def jobs(seed, tier):
    rng = rng_for(seed, "C09", "jobs")
    out = []
    th = tier != "quick"
    P = lambda *x: x[int(rng.integers(len(x)))]
    for rep in range(6 if th else 1):
        for i, s in enumerate(["Tsit5", "Heun", "Bosh3", "Dopri5", "Half:Euler", "ReversibleHeun", "Dopri8", "Half:Tsit5", "Euler", "Midpoint", "Ralston", "Half:Heun"]):
            for j in range(2):
                dtmin, force = [(False, True), (True, False), (True, True), (True, True)][(i + 2 * j) % 4]
                dtmax = bool((i + j) % 2)
                order = "given" if s == "Euler" else P("auto", "given")
                out.append(dict(kind="script", name=f"s{rep}{j}-{s}-{'min' if dtmin else ''}{'max' if dtmax else ''}{'-noforce' if dtmin and not force else ''}-{order}",
                                solver=s, dtmin=dtmin, dtmax=dtmax, force=force, order=order, norm=P("rms", "rms", "max", "l1"),
                                shape=P("vec3", "tree", "scalar"), dt0=P("given", "given", "none"), f32=(i + j) % 5 == 4, clip=rng.random() < 0.3,
                                adjoint=P("rec", "direct", "forward"), static_coeffs=bool(rng.random() < 0.5),
                                runs=400 * (3 if th else 1), cost=1.0))
        for s in ["Tsit5", "Heun", "Bosh3", "Dopri5", "Midpoint", "Ralston", "Dopri8", "Half:Heun", "Kvaerno3", "ImplicitEuler", "Kvaerno5"]:
            imp = s in ref.IMPLICIT
            out.append(dict(kind="explode", name=f"x{rep}-{s}", solver=s, shape="vec3", norm="rms", dtmin=False, dtmax=False, force=True, order="auto", f32=False,
                            dt0="given", clip=False, adjoint="forward", static_coeffs=True, runs=(8 if imp else 30) * (3 if th else 1), cost=2.0))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.tree_util as jtu, equinox as eqx, optimistix as optx, diffrax as dfx
        from jax.flatten_util import ravel_pytree
        from sim import system as S
        self.job, self.S = job, S
        self.td = td = np.float32 if job["f32"] else np.float64
        shape = self.shape = S.Shape(job["shape"])
        self.imp = job["solver"] in ref.IMPLICIT
        norm = {"rms": optx.rms_norm, "max": optx.max_norm, "l1": lambda e: sum(jnp.sum(jnp.abs(x)) for x in jtu.tree_leaves(e))}[job["norm"]]
        NX = self.NX = N if job["kind"] == "script" else 1500

        class ErrorScript(dfx.AbstractAdaptiveStepSizeController):
            """Shows the inner controller the scripted error estimate (and an overflowing state) instead."""
            inner: dfx.AbstractStepSizeController
            err: jax.Array
            bad: jax.Array
            @property
            def rtol(self): return self.inner.rtol
            @property
            def atol(self): return self.inner.atol
            @property
            def norm(self): return self.inner.norm
            def wrap(self, direction): return self
            def init(self, *a):
                t, s = self.inner.init(*a)
                return t, (jnp.array(0), s)
            def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, state):
                k, s = state
                _, un = ravel_pytree(y0)
                v, _ = ravel_pytree(y1)
                v = jnp.where(self.bad[k] == 1, jnp.nan, jnp.where(self.bad[k] == 2, jnp.inf, v))
                out = self.inner.adapt_step_size(t0, t1, y0, un(v), args, un(self.err[k].astype(v.dtype)), error_order, s)
                return *out[:4], (k + 1, out[4]), out[5]

        def vfx(t, y, args):
            k = args["fam"]
            y = jnp.where(k == 1, jnp.where(y > 0, y, jnp.nan), y)
            return jnp.where(k == 0, y ** 9 - y, jnp.where(k == 1, -y * jnp.log(y), -y ** 3))
        solver = S.make_solver(job["solver"])
        terms = S.make_terms(job["solver"], shape) if job["kind"] == "script" else dfx.ODETerm(vfx)
        adjoint = S.make_adjoint(job["adjoint"])

        def run(c, t0, t1, dt0, y0):
            kw = dict(rtol=c["rtol"], atol=c["atol"], norm=norm, force_dtmin=job["force"])
            co = (0.0, 1.0, 0.0) if job["static_coeffs"] else c["coef"]
            kw.update(pcoeff=co[0], icoeff=co[1], dcoeff=co[2], factormin=c["fmin"], factormax=c["fmax"], safety=c["safety"])
            if job["dtmin"]: kw["dtmin"] = c["dtmin"]
            if job["dtmax"]: kw["dtmax"] = c["dtmax"]
            if job["order"] == "given": kw["error_order"] = c["order"]
            ctl = S.Recorder(dfx.PIDController(**kw), NX)
            if job["kind"] == "script": ctl = ErrorScript(ctl, c["err"], c["bad"])
            if job["clip"]: ctl = dfx.ClipStepSizeController(ctl, step_ts=c["step_ts"])
            sol = dfx.diffeqsolve(terms, solver, t0, t1, None if job["dt0"] == "none" else dt0, shape.pack(y0), dict(p=c["p"], fam=c["fam"]),
                                  stepsize_controller=ctl, adjoint=adjoint, saveat=dfx.SaveAt(t1=True, controller_state=True), max_steps=NX, throw=False)
            return sol.ts, sol.ys, sol.controller_state, sol.result, sol.stats
        self.fn = jax.jit(run)

    def gen(self, rng, i):
        job, td = self.job, self.td
        t0, t1, d = cm.gen_interval(rng)
        span = abs(t1 - t0)
        P = lambda *x: x[int(rng.integers(len(x)))]
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d), fam=0)
        c.update(rtol=float(P(0.0, 1e-2, 1e-4)), atol=float(P(1.0, 1e-3, 1e-6)), fmin=float(P(0.2, 0.2, 0.5, 0.05)), fmax=float(P(10.0, 10.0, 2.0, 1.3)),
                 safety=float(P(0.9, 0.9, 0.7, 0.99)), coef=[float(x) for x in P((0.0, 1.0, 0.0), (0.4, 0.3, 0.0), (0.3, 0.4, 0.1), (0.1, 0.3, 0.0), (0.2, 0.6, 0.05))],
                 order=float(P(1.0, 1.5, 2.0, 3.0, 5.0)))
        if job["kind"] == "explode":
            fam = c["fam"] = int(rng.integers(3))
            span = float(P(1.0, 3.0, 8.0))
            c.update(t0=0.0, t1=d * span, rtol=1e-5, atol=1e-7, fmin=0.2, fmax=10.0, safety=0.9)
            if job["solver"] in ("Heun", "ImplicitEuler", "Midpoint", "Ralston", "ReversibleHeun"): c.update(rtol=1e-4, atol=1e-5)
            c["y0"] = [float(x) for x in np.round(rng.uniform(0.05, 0.93, 3), 3)] if fam == 0 else [float(x) for x in np.round(rng.uniform(0.05, 3.0, 3), 3)]
            if d < 0: c["t1"] = span      # (only the forward problem is well behaved)
            c["dt0"] = float(span * 10 ** rng.uniform(-2, 0)) if rng.random() < 0.3 or self.imp else float(span * 10 ** rng.uniform(0, 4))
            if rng.random() < 0.5 and not self.imp:
                c["t1"] = float(10 ** rng.uniform(1, 1.5)); c["dt0"] = float(10 ** rng.uniform(0.5, 40))
            return c
        c["dt0"] = float(span * 10 ** rng.uniform(-4, 0.3))
        base = span * 10 ** rng.uniform(-3, -1)
        c["dtmin"] = float(base * (1.0 if rng.random() < 0.8 else 10 ** rng.uniform(-3, 0)))
        c["dtmax"] = float(max(base * 10 ** rng.uniform(0.1, 2), 2 * c["dtmin"]))
        style = P("benign", "spiky", "bursts", "allbad", "zeros", "ramp", "threshold")
        dm = self.shape.d
        e = np.exp(rng.normal(0, {"benign": 0.7, "spiky": 3.0}.get(style, 1.0), N))
        if style == "spiky":
            r = rng.random(N)
            e = np.where(r < 0.1, np.inf, np.where(r < 0.2, 0.0, np.where(r < 0.3, 1e-30, np.where(r < 0.4, 1e30, e))))
        elif style == "bursts":
            k = int(rng.integers(0, 6))
            while k < N:
                b = int(rng.integers(1, 9)); e[k:k + b] = P(np.inf, 1e6, 3.0); k += b + int(rng.integers(1, 12))
        elif style == "allbad":
            e[int(rng.integers(0, 5)):] = P(np.inf, 50.0, 1e20)
        elif style == "zeros":
            e = np.where(rng.random(N) < 0.7, 0.0, e)
        elif style == "ramp":
            e = 10.0 ** np.linspace(-8, 3, N)[rng.permutation(N)] if rng.random() < 0.5 else 10.0 ** np.linspace(*P((-6, 3), (3, -6)), N)
        elif style == "threshold":
            e = P(0.9, 0.99, 1.0, 1.01, 1.2) * np.exp(rng.normal(0, 0.05, N))
        calm = int(rng.integers(2, 40))      # from here on the estimates are harmless
        if rng.random() < 0.6 and style != "allbad": e[calm:] = P(0.0, 1e-3, 0.05)
        if job["f32"]: e = np.where((e > 0) & np.isfinite(e), np.clip(e, 1e-12, 1e12), e)     # (squares must not over- or underflow)
        scale = c["atol"] * (1 if rng.random() < 0.7 else 3)
        w = rng.uniform(0.5, 1.5, (N, dm)) * np.sign(rng.normal(size=(N, dm)))
        with np.errstate(invalid="ignore"):
            err = e[:, None] * scale * w
        part = rng.random(N) < 0.15         # the estimate is bad in one component only
        for k in np.nonzero(part)[0]:
            err[k, 1:] = err[k, 1:] * 0 if np.isfinite(err[k]).all() else 0.0
        c["err"] = [[float(x) for x in r] for r in np.nan_to_num(err, posinf=np.inf, neginf=-np.inf)]
        c["bad"] = [0] * N
        for k in range(N):
            if not np.isfinite(e[k]) and not part[k]: c["bad"][k] = int(rng.integers(3))
        c["style"] = style
        if job["clip"]:
            c["step_ts"] = [float(t0 + d * span * x) for x in np.sort(rng.uniform(0.05, 0.95, 3))]
        return c

    def execute(self, c):
        S, td = self.S, self.td
        d = 1 if c["t1"] > c["t0"] else -1
        A = lambda k: np.asarray(c[k], td)
        if self.job["kind"] == "script":
            err = np.asarray(c["err"], float); err = np.concatenate([err, np.tile(err[-1:], (N - len(err), 1))]) if len(err) < N else err
            bad = np.asarray((list(c["bad"]) + [0] * N)[:N], np.int32)
        else:
            err, bad = np.zeros((1, 1)), np.zeros(1, np.int32)
            c = dict(c, dtmin=0.0, dtmax=1.0)
        b = dict(p=A("p"), err=err.astype(td), bad=bad, fam=np.int32(c["fam"]), step_ts=np.asarray(c.get("step_ts", [0.0]), td),
                 **{k: A(k) for k in ("rtol", "atol", "fmin", "fmax", "safety", "coef", "order")}, dtmin=A2(c, "dtmin", td), dtmax=A2(c, "dtmax", td))
        ts, ys, cs, result, stats = sut(lambda: self.fn(b, td(c["t0"]), td(c["t1"]), td(d * c["dt0"]), A("y0")))
        while not hasattr(cs, "n"):     # unwrap to the recorder
            cs = cs.inner_state if hasattr(cs, "inner_state") else cs[1]
        log = S.read_log(cs)
        return dict(log=log, tf=float(ts[0]), yf=self.shape.flat(ys)[0], result=S.result_name(result), n=int(stats["num_steps"]))

    def _scaled(self, y0, y1, err, c):
        job = self.job
        y0, y1, err = (np.asarray(x, float) for x in (y0, y1, err))
        sl = [slice(0, 1), slice(1, 3), slice(3, 4)] if job["shape"] == "tree" else [slice(0, len(y0))]
        out = np.empty_like(y0)
        for s in sl:
            z = y1[s] if np.isfinite(y1[s]).all() else y0[s]
            with np.errstate(all="ignore"):
                out[s] = err[s] / (self.td(c["atol"]) + np.maximum(np.abs(y0[s]), np.abs(z)) * self.td(c["rtol"]))
        with np.errstate(all="ignore"):
            return float({"rms": lambda x: np.sqrt(np.mean(x * x)), "max": lambda x: np.max(np.abs(x)), "l1": lambda x: np.sum(np.abs(x))}[job["norm"]](out))

    def check(self, c, o, st):
        job, td = self.job, self.td
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = float(d * td(c["t0"])), float(d * td(c["t1"]))
        log, n = o["log"], o["log"]["n"]
        st.steps += n
        rt = 2e-3 if job["f32"] else 1e-7
        tt = 1e-5 if job["f32"] else 1e-12
        ulp = (1e-6 if job["f32"] else 1e-14) * max(1, abs(s0), abs(s1))
        hist = f"(history {cm.pattern(log)[-60:]})"
        coef = (0.0, 1.0, 0.0) if job["static_coeffs"] else [float(td(x)) for x in c["coef"]]
        order = c["order"] if job["order"] == "given" else ORDER[job["solver"]]
        fmin, fmax, safety = (float(td(c[k])) for k in ("fmin", "fmax", "safety"))
        dtmin = float(td(c["dtmin"])) if job["dtmin"] else None
        dtmax = float(td(c["dtmax"])) if job["dtmax"] else None
        c1, c2, c3 = sum(coef) / order, -(coef[0] + 2 * coef[2]) / order, coef[2] / order
        i1, i2, at_min = 1.0, 1.0, False
        sim = float(sum(log["t1"][k] - log["t0"][k] for k in range(n) if log["keep"][k]))
        st.sim_time += sim if math.isfinite(sim) else 0
        # ---- the first step
        if n:
            h = log["t1"][0] - log["t0"][0]
            if not (h > 0) or log["t0"][0] != s0:
                return V("first_step", f"first attempt [{log['t0'][0]!r}, {log['t1'][0]!r}]")
            if job["dt0"] == "given" and not job["clip"]:
                e = float(td(c["dt0"]))
                if dtmax is not None: e = min(e, dtmax)
                if dtmin is not None: e = max(e, dtmin)
                e = min(s0 + e, s1)
                if abs(log["t1"][0] - e) > ulp + tt * abs(e):
                    return V("first_step", f"first attempt ends at {log['t1'][0]!r}, expected {e!r} (dt0={c['dt0']}, dtmin={dtmin}, dtmax={dtmax})")
            elif dtmax is not None and h > dtmax * (1 + tt) + ulp:
                return V("first_step", f"first attempt has length {h!r} > dtmax={dtmax}")
        word = []
        fail = None
        for k in range(n):
            t0, t1, keep = log["t0"][k], log["t1"][k], bool(log["keep"][k])
            if not (math.isfinite(t0) and math.isfinite(t1) and t1 > t0 - 0.0 and t1 <= s1):
                if not t1 == t0:
                    return V("bad_step", f"attempt {k} is over [{t0!r}, {t1!r}] of [{s0}, {s1}] {hist}")
            if t1 - t0 <= 16 * ulp and dtmin is None:
                st.probe("shrunk_to_rounding"); break
            e = self._scaled(log["y0"][k], log["y1"][k], log["err"][k], c)
            if at_min is None: at_min = keep and not e < 1
            if not (abs(e - 1) < (1e-4 if job["f32"] else 1e-9)):
                exp = (e < 1) or at_min
                if keep != exp:
                    return V("accept", f"attempt {k} over [{t0!r}, {t1!r}] has scaled error {e!r}{' and was made with the minimal step size' if at_min else ''} but was "
                             f"{'accepted' if keep else 'rejected'} {hist}")
            if not math.isfinite(e) and keep and not at_min:
                return V("accept", f"attempt {k} with a non-finite error estimate was accepted {hist}")
            h = t1 - t0
            with np.errstate(all="ignore"):
                inv = float(np.float64(1) / np.float64(e))
                f = safety
                for b, q in ((inv, c1), (i1, c2), (i2, c3)):
                    if q != 0: f = f * float(np.float64(b) ** q)
            lo, hi = (1.0, fmax) if keep else (fmin, safety)
            if math.isnan(f): f = hi
            w = "-" if lo < f < hi else ("<" if f <= lo else ">")
            f = min(max(f, lo), hi)
            dt = h * f
            if dtmax is not None and dt > dtmax: dt = dtmax; w += "M"
            if dtmin is not None:
                near = abs(dt / dtmin - 1) <= rt
                if not job["force"] and not keep and dt < dtmin:
                    # (rounding decides whether a step size next to dtmin is below it)
                    if not near or o["result"] == "dt_min_reached" and k == n - 1: fail = k
                if at_min and f == 1: dt = dtmin
                at_min = dt <= dtmin and job["force"]
                if dt <= dtmin: w += "m"
                dt = max(dt, dtmin)
                if near and job["force"]:    # (rounding decides whether this counts as having reached dtmin)
                    at_min = None
            word.append(w)
            got = log["tnext"][k] - log["tprev"][k]
            if log["tprev"][k] != (t1 if keep else t0):
                return V("position", f"after attempt {k} ({'accepted' if keep else 'rejected'}) over [{t0!r}, {t1!r}] the time is {log['tprev'][k]!r} {hist}")
            if fail != k and not abs(got - dt) <= rt * dt + 4 * ulp:
                return V("step_size", f"attempt {k} of length {h!r}, scaled error {e!r}, {'accepted' if keep else 'rejected'}: next step size {got!r}, expected {dt!r} "
                         f"(factor {f!r}; previous inverse errors {i1!r}, {i2!r}; dtmin={dtmin}, dtmax={dtmax}, coefficients {coef}, order {order}) {hist}")
            if not keep and not (got <= h * safety * (1 + rt) + 4 * ulp or (dtmin is not None and got <= dtmin + 4 * ulp)):
                return V("no_shrink", f"after the rejected attempt {k} of length {h!r} the next has length {got!r} {hist}")
            if fail == k:
                break
            if keep:
                i2, i1 = i1, (1.0 if inv == 0 or math.isinf(inv) else inv)
        st.fault("rejected_attempt", n - int(np.sum(log["keep"])))
        st.fault("nonfinite_error", int(np.sum(~np.isfinite(log["err"]).all(1))))
        st.fault("limit_met", sum(len(w.strip("-")) > 0 for w in word))
        # ---- outcome
        if fail is not None:
            if o["result"] != "dt_min_reached" or o["n"] != fail + 1:
                return V("dtmin_result", f"attempt {fail} makes the step size fall below dtmin={dtmin}, but the solve made {o['n']} attempts and reported {o['result']} {hist}")
        elif o["result"] == "dt_min_reached":
            return V("dtmin_result", f"dt_min_reached reported, but the step size never fell below dtmin={dtmin} {hist}")
        elif o["result"] == "successful":
            if abs(o["tf"] - float(td(c["t1"]))) > ulp: return V("end", f"successful at t={o['tf']!r} of {c['t1']!r} {hist}")
        elif o["result"] != "max_steps_reached" or n != self.NX:
            return V("result", f"reported {o['result']} after {o['n']} attempts {hist}")
        if job["kind"] == "explode":
            y0 = np.asarray(c["y0"]); T = c["t1"] - c["t0"]
            with np.errstate(all="ignore"):
                y = [lambda: (1 + (y0 ** -8.0 - 1) * np.exp(8 * T)) ** (-1 / 8), lambda: np.exp(np.exp(-T) * np.log(y0)), lambda: 1 / np.sqrt(y0 ** -2.0 + 2 * T)][c["fam"]]()
            if o["result"] != "successful":
                return V("progress", f"the error estimates are fine for small steps, but after {o['n']} attempts (started with dt0={c['dt0']}) the solve is at t={o['tf']!r}: {o['result']}; "
                         f"last attempts {[(float(log['t0'][k]), float(log['t1'][k]), bool(log['keep'][k])) for k in range(max(0, n-3), n)]}")
            if not np.all(np.abs(o["yf"] - y) <= 0.02 * (np.abs(y) + 0.02)):
                return V("accuracy", f"final value {o['yf']}, exact {y} {hist}")
        st.nontrivial.add(digest([job["name"], cm.pattern(log), "".join(word)]))
        return None

    def shrink(self, c):
        import copy
        if "err" not in c: return
        n = len(c["err"])
        size = n // 2
        while size >= 1:
            for lo in range(0, n - size + 1, size):
                if n - size >= 1:
                    e = copy.deepcopy(c)
                    for k in ("err", "bad"): del e[k][lo:lo + size]
                    yield e
            size //= 2
        for i in range(n):
            if c["bad"][i]: e = copy.deepcopy(c); e["bad"][i] = 0; yield e


def A2(c, k, td):
    return np.asarray(c.get(k, 1.0), td)
