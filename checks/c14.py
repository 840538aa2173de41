"""C14: SDE solves follow one driving path under every step schedule."""
from __future__ import annotations
import numpy as np
from sim import ref, sde
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one SDE solve (seeded key, direction, schedule of accepted and rejected attempts, faults in rejected "
         "attempts) or one strong-convergence comparison of two seeded schedules on 64 paths; non-trivial = at least one "
         "rejected attempt or a backward solve; distinct by (configuration, direction, accept/reject word, faults)",
    measure="distinct (method, noise layout, direction, accept/reject word, fault word)",
    real=["diffeqsolve loop", "all SDE methods", "VirtualBrownianTree", "UnsafeBrownianPath", "MultiTerm/ControlTerm/Langevin terms",
          "time reversal of terms"],
    stub=["step size controller (scripted scheduler)", "method wrapper injecting faults"],
    assumptions=["numpy one-step models from the published formulas / frozen tableaus", "increments of the path over an interval "
                 "are taken from the path object itself (its consistency is C06)"],
)
N = 18
CONV = {"Euler": ("ito", .5), "ItoMilstein": ("ito", 1.), "EulerHeun": ("strat", 1.), "StratonovichMilstein": ("strat", 1.),
        "Heun": ("strat", 1.), "Ralston": ("strat", 1.), "Midpoint": ("strat", 1.), "ReversibleHeun": ("strat", 1.), "SPaRK": ("strat", 1.),
        "GeneralShARK": ("strat", 1.), "SlowRK": ("strat", 1.5), "SEA": ("add", 1.), "SRA1": ("add", 1.5), "ShARK": ("add", 1.5),
        "ALIGN": ("lang", 2.), "ShOULD": ("lang", 3.), "QUICSORT": ("lang", 3.)}


def layouts(name):
    if name in sde.LANGEVIN: return ["lang"]
    if name in sde.ADDITIVE: return ["add", "addtree"]
    if name in ("Half:EulerHeun", "Half:Heun"): return ["vec", "tree"]
    return ["vec", "tree", "diag"]


def jobs(seed, tier):
    rng = rng_for(seed, "C14", "jobs")
    out = []
    for r in range(1 if tier == "quick" else 3):
        for n in sde.ALL:
            ls = layouts(n)
            for L in ([ls[int(rng.integers(len(ls)))]] if tier == "quick" else ls):
                lv = sde.LEVY.get(n) or [None, "H", "K"][int(rng.integers(3))]
                if n == "ALIGN" and rng.random() < 0.5: lv = "K"
                out.append(dict(name=f"{r}-step-{n}-{L}-{lv}", kind="step", method=n, layout=L, levy=lv, unsafe=False,
                                jump=bool(rng.random() < 0.5), runs=150 if tier == "quick" else 800, cost=2.0 if lv == "K" else 1.0))
        for n, L, lv in (("Euler", "vec", None), ("SPaRK", "diag", "H"), ("ShOULD", "lang", "K")):
            out.append(dict(name=f"{r}-unsafe-{n}", kind="step", method=n, layout=L, levy=lv, unsafe=True, jump=False,
                            runs=80 if tier == "quick" else 300, cost=1.0))
        for n in CONV:
            out.append(dict(name=f"{r}-conv-{n}", kind="conv", method=n, runs=2 if tier == "quick" else 16, cost=4.0))
    return out


def Runner(job):
    return StepRunner(job) if job["kind"] == "step" else ConvRunner(job)


class StepRunner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, diffrax as dfx
        from sim import system as S
        self.job, self.S, self.jr = job, S, jr
        L = self.L = sde.Layout(job["layout"])
        lev = sde.levy_cls(job["levy"])
        solver = sde.make_solver(job["method"])
        unsafe = job["unsafe"]

        def path_of(key, lo, hi, tol):
            key = jr.wrap_key_data(key)
            if unsafe:
                return dfx.UnsafeBrownianPath(sde.noise_shape(L), key, lev)
            return dfx.VirtualBrownianTree(lo, hi, tol, sde.noise_shape(L), key, lev)

        def solve(sc, fl, t0, t1, dt0, y0, p, q, key, lo, hi, tol, ts):
            path = path_of(key, lo, hi, tol)
            terms = sde.make_terms(job["method"], L, path, q)
            sa = dfx.SaveAt(subs=[dfx.SubSaveAt(t1=True), dfx.SubSaveAt(steps=True)], controller_state=True)
            if unsafe:
                # fixed, prescribed steps: the only schedules this path supports
                ctl = S.Recorder(dfx.StepTo(ts), N)
                s = dfx.diffeqsolve(terms, solver, t0, t1, None, sde.pack(L, y0), p, saveat=sa, stepsize_controller=ctl,
                                    max_steps=N, throw=False, adjoint=dfx.ForwardMode())
            else:
                ctl = S.ScriptedController(**sc, with_jump=job["jump"], with_code=False)
                if job["method"] == "Euler": ctl = S.PlainScripted(ctl)
                sol = S.FaultySolver(solver, fl["at"], fl["start"], fl["kind"])
                s = dfx.diffeqsolve(terms, sol, t0, t1, dt0, sde.pack(L, y0), p, saveat=sa, stepsize_controller=ctl,
                                    max_steps=N, throw=False)
            return s.ts, s.ys, s.controller_state[1], s.result, s.stats

        def incs(key, lo, hi, tol, a, b):
            path = path_of(key, lo, hi, tol)
            ev = lambda a, b: path.evaluate(a, b, use_levy=True)
            return jax.vmap(ev)(a, b)
        self.fn, self.incs = jax.jit(solve), jax.jit(incs)
        self.execute(self.gen(rng_for("build"), 0))

    def gen(self, rng, i):
        S = self.S
        t0, t1, d = cm.gen_interval(rng)
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.L.d), q=float(np.round(0.3 + rng.random(), 3)))
        c.update(S.gen_schedule(rng, N, span))
        if self.L.kind == "lang":
            c["q"] = float(np.round(10 ** rng.uniform(-1, 1), 3))
        pad = [0.0, 0.0, 0.3, 1.0][int(rng.integers(4))]
        c["lo"], c["hi"] = min(t0, t1) - pad, max(t0, t1) + pad * float(np.round(rng.random(), 2))
        c["tol"] = span * float(2.0 ** -rng.integers(3, 12))
        c["key"] = [int(x) for x in rng.integers(0, 2 ** 32, 2)]
        rej = [k for k in range(N) if not c["keep"][k]]
        c["faults"] = [[int(k), int(rng.integers(1, 7))] for k in rej if rng.random() < 0.4]
        if self.job["jump"] and rng.random() < 0.5:
            c["jump"] = [bool(x) for x in rng.random(N) < 0.3]
            c["gap"] = [0.0] * N
        if self.job["unsafe"]:
            n = N - 2
            x = np.sort(rng.random(n - 1))
            c["ts"] = [t0] + [float(t0 + (t1 - t0) * v) for v in x] + [t1]
        return c

    def execute(self, c):
        S, L = self.S, self.L
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, s0, s1)
        for k, kind in c.get("faults") or []:
            if k < len(at) and k < len(c["keep"]) and not c["keep"][k]:
                fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        key = np.asarray(c["key"], np.uint32)
        ts, ys, log, result, stats = sut(lambda: self.fn(
            S.schedule_arrays(c, N), fl, c["t0"], c["t1"], d * c["dt0"], np.asarray(c["y0"]), np.asarray(c["p"]), np.float64(c["q"]), key,
            c["lo"], c["hi"], c["tol"], np.asarray(c.get("ts") or [c["t0"], c["t1"]], float)))
        log = S.read_log(log)
        n = log["n"]
        a, b = np.full(N, c["lo"]), np.full(N, c["hi"])
        if d > 0: a[:n], b[:n] = log["t0"], log["t1"]
        else: a[:n], b[:n] = -log["t1"], -log["t0"]
        m = a + 0.5 * (b - a) if d > 0 else -((-b) + 0.5 * ((-a) - (-b)))
        inc = sut(lambda: self.incs(key, c["lo"], c["hi"], c["tol"], a, b))
        F = lambda x: None if x is None else sde.noise_flat(L, x)[:n]
        W, H, K = F(inc.W), F(getattr(inc, "H", None)), F(getattr(inc, "K", None))
        Wm = None
        if self.job["method"].startswith("Half:"):
            W1 = F(sut(lambda: self.incs(key, c["lo"], c["hi"], c["tol"], a, m)).W)
            W2 = F(sut(lambda: self.incs(key, c["lo"], c["hi"], c["tol"], m, b)).W)
            Wm = (W1, W2) if d > 0 else (-W2, -W1)
        if d < 0:
            W = -W
            K = None if K is None else -K
        bad = [k for k in range(n) if any(fl["kind"][j] and abs(fl["at"][j] - log["t1"][k]) < 1e-9 and abs(fl["start"][j] - log["t0"][k]) < 1e-9 for j in range(N))]
        return dict(log=log, W=W, H=H, K=K, Wm=Wm, faulted=bad, tf=np.asarray(ts[0]), yf=sde.state_flat(L, ys[0]),
                    ts=np.asarray(ts[1]), ys=sde.state_flat(L, ys[1]), result=S.result_name(result),
                    stats={k: int(stats[k]) for k in ("num_steps", "num_accepted_steps", "num_rejected_steps")})

    def check(self, c, o, st):
        job, log = self.job, o["log"]
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        n = log["n"]
        acc = [k for k in range(n) if log["keep"][k]]
        bad = set(o["faulted"])
        first = min([k for k in acc if k in bad], default=None)
        st.steps += n
        st.sim_time += float(sum(log["t1"][k] - log["t0"][k] for k in acc))
        for k in bad: st.fault("disturbed_rejected_attempt")
        st.fault("rejected_attempt", n - len(acc))
        if d < 0: st.fault("backward_solve")
        if first is not None:
            return None    # an identical interval was accepted later: the fault is then part of the solution
        dt0 = abs(c["ts"][1] - c["ts"][0]) if job["unsafe"] else c["dt0"]
        v, _ = cm.check_schedule(log, s0, s1, dt0)
        if v: return v
        m = sde.Method(job["method"], self.L, np.asarray(c["p"]), c["q"])
        state = m.init(c["t0"], log["y0"][0]) if n else None
        mj = False
        for k in range(n):
            g = lambda x: None if x is None else x[k]
            mid = None if o["Wm"] is None else (o["Wm"][0][k], o["Wm"][1][k])
            y1, err, new = m.step(d * log["t0"][k], d * log["t1"][k], log["y0"][k], state, g(o["W"]), g(o["H"]), g(o["K"]), mid, mj)
            if k not in bad:
                if not ref.close(log["y1"][k], y1, 2e-6):
                    return V("step_value", f"attempt {k} over [{log['t0'][k]}, {log['t1'][k]}] (direction {d}) gave {log['y1'][k]}, one step "
                             f"of {m.name} with the path's own increments gives {y1}; history {cm.pattern(log)[:k]}")
                if err is not None and not ref.close(np.abs(log["err"][k]), np.abs(err), 2e-6):
                    return V("step_error", f"attempt {k} reported error estimate {log['err'][k]}, {m.name} gives {err}")
            if log["keep"][k]:
                state, mj = new, bool(c.get("jump")) and k < len(c["jump"]) and c["jump"][k]
        v = cm.check_stats(o["stats"], log)
        if v: return v
        done = bool(acc) and min(log["tprev"][acc[-1]], s1) >= s1
        if o["result"] != ("successful" if done else "max_steps_reached"):
            return V("result", f"{o['result']} after {n} attempts, final time reached: {done}")
        tf = d * min(log["tprev"][acc[-1]], s1) if acc else c["t0"]
        yf = log["y1"][acc[-1]] if acc else np.asarray(c["y0"])
        if o["tf"][0] != tf or not ref.close(o["yf"][0], yf, 1e-12):
            return V("final", f"final output {o['tf']}, {o['yf']}, last accepted step ended at {tf}, {yf}")
        if np.sum(np.isfinite(o["ts"])) != len(acc) or (acc and not ref.close(o["ys"][:len(acc)], log["y1"][acc], 1e-12)):
            return V("steps", f"saved steps {o['ts']} do not match the accepted ones {log['t1'][acc]}")
        if len(acc) < n or d < 0:
            st.nontrivial.add(digest([job["name"], d, cm.pattern(log), sorted(bad), c.get("jump")]))
        return None

    def shrink(self, c):
        yield from self.S.shrink_schedule(c)


class ConvRunner:
    """Two seeded schedules (with rejected attempts) on the same 64 paths of a linear SDE, against
    the closed-form solution on that path (from path values and Levy areas on 256 fine intervals):
    errors have to fall at the strong rate."""
    M, NF, B = 96, 256, 64

    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, diffrax as dfx, lineax as lx
        from sim import system as S
        self.job, self.S = job, S
        fam, self.p = CONV[job["method"]]
        self.fam = fam
        lev = "K" if fam == "lang" else "H"
        self.n0 = {"lang": 5, "add": 6}.get(fam, 8)
        m = {"lang": 1, "add": 1}.get(fam, 2)

        def path_of(t0, t1, key):
            return dfx.VirtualBrownianTree(jnp.minimum(t0, t1), jnp.maximum(t0, t1), 2.0 ** -12, (m,), jr.wrap_key_data(key), sde.levy_cls(lev))

        def terms_of(path, p):
            if fam == "lang":
                gf = lambda x, a: a[0] * x
                g, u = p[1][None], p[2][None]
                return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g, u, gf), dfx.UnderdampedLangevinDiffusionTerm(g, u, path))
            if fam == "add":
                return dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -a[0] * y + jnp.cos(t)),
                                     dfx.ControlTerm(lambda t, y, a: (p[1] + p[2] * jnp.sin(2 * t))[None, None], path))
            return dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: a[0] * y),
                                 dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(jnp.stack([a[1], a[2]]) * y), path))

        def coarse(sc, t0, t1, dt0, y0, p, keys):
            ctl = S.ScriptedController(**sc, with_jump=False, with_code=False, record=False)
            if job["method"] == "Euler": ctl = S.PlainScripted(ctl)

            def one(k):
                y = (y0[:1], y0[1:]) if fam == "lang" else (y0[:1] if fam == "add" else y0)
                s = dfx.diffeqsolve(terms_of(path_of(t0, t1, k), p), sde.make_solver(job["method"]), t0, t1, dt0, y, p,
                                    stepsize_controller=ctl, max_steps=self.M, throw=False)
                y = jnp.concatenate(s.ys, -1) if fam == "lang" else s.ys
                return y[0], s.result == dfx.RESULTS.successful
            return jax.vmap(one)(keys)

        def query(a, b, t0, t1, keys):
            def one(k):
                path = path_of(t0, t1, k)
                r = jax.vmap(lambda x, y: path.evaluate(x, y, use_levy=True))(a, b)
                return r.W, r.H, getattr(r, "K", r.H)
            return jax.vmap(one)(keys)
        self.coarse, self.query = jax.jit(coarse), jax.jit(query)
        self.slack = {1.0: 2.2, 0.5: 1.8, 1.5: 2.7, 2.0: 3.2, 3.0: 5.0}[self.p]

    def gen(self, rng, i):
        d = 1 if (i % 2 == 0 or self.job["method"] == "Euler") else -1   # backward Ito-Euler is a different SDE
        t0 = float(rng.choice([0.0, 0.5, -1.0]))
        c = dict(t0=t0, t1=t0 + d, y0=[float(x) for x in np.round(np.sign(rng.normal(size=2)) * (0.6 + 0.4 * rng.random(2)), 3)],
                 p=[float(x) for x in np.round([0.5 + 0.4 * rng.random(), 0.4 + 0.3 * rng.random(), 0.5 + 0.3 * rng.random()], 3)],
                 key=[int(x) for x in rng.integers(0, 2 ** 32, 2)])
        sch = []
        for n in (self.n0, 4 * self.n0):
            h = 1.0 / n * (0.6 + 0.8 * rng.random(n)); h /= h.sum()
            keep, dt = [], []
            dt0 = None
            for k in range(n):
                tries = [float(h[k] * (1.3 + rng.random())) for _ in range(int(rng.random() < 0.35) * int(rng.integers(1, 3)))] + [float(h[k])]
                for j, x in enumerate(tries):
                    if dt0 is None: dt0 = x
                    else: dt.append(x)
                    keep.append(j == len(tries) - 1)
            dt.append(1.0)
            sch.append(dict(keep=keep, dt=dt, dt0=dt0))
        c["sch"] = sch
        return c

    def exact(self, c, W, H, K):
        """W, H, K: (B, NF, m) over consecutive intervals from t0 to t1 in the direction of solving."""
        t0, t1, p, y0 = c["t0"], c["t1"], c["p"], np.asarray(c["y0"])
        n = self.NF
        if self.fam in ("ito", "strat"):
            b = np.asarray(p[1:3])
            T = t1 - t0
            a = p[0] - (0.5 * b ** 2 if self.fam == "ito" else 0.0)
            return y0 * np.exp(a * T + b * W.sum(1))
        h = (t1 - t0) / n
        s = t0 + h * np.arange(n)

        def stoch(phi):
            """int phi(s) dW(s) for smooth phi: (..., n) values via W, H (, K)"""
            q = np.polynomial.legendre.leggauss(3)
            # phi on [s, s+h] ~ c0 + c1 (u-1/2) + c2 ((u-1/2)^2-1/12), exact projections
            x = 0.5 + 0.5 * q[0]
            vals = np.stack([phi(s + h * xi) for xi in x], -1)
            w = 0.5 * q[1]
            c0 = (vals * w).sum(-1)
            c1 = 12 * (vals * w * (x - 0.5)).sum(-1)
            c2 = 180 * (vals * w * ((x - 0.5) ** 2 - 1 / 12)).sum(-1)
            # int (u-1/2) dW = -H ;  int ((u-1/2)^2-1/12) dW = 1/6 W - int 2(u-1/2) W du = 2K  (K = int bridge (1/2-u) du)
            out = c0 * W[..., 0] - c1 * H[..., 0]
            if self.fam == "lang":
                out = out + c2 * 2 * K[..., 0]
            return out.sum(-1)
        if self.fam == "add":
            th, g0, g1 = p
            E = np.exp(-th * (t1 - t0))
            part = lambda t: (th * np.cos(t) + np.sin(t)) / (th * th + 1)
            y = E * (y0[0] - part(t0)) + part(t1)
            return (y + stoch(lambda u: np.exp(-th * (t1 - u)) * (g0 + g1 * np.sin(2 * u))))[:, None]
        k, gam, u = p
        A = np.array([[0, 1.0], [-u * k, -gam]])
        lam, X = np.linalg.eig(A.astype(complex))
        Xi = np.linalg.inv(X)
        em = lambda t: np.einsum("ij,j...,jk->ik...", X, np.exp(lam[(slice(None),) + (None,) * np.ndim(t)] * t), Xi).real
        z = em(np.asarray(t1 - t0)) @ y0
        rho = np.sqrt(2 * gam * u)
        return np.stack([z[i] + stoch(lambda v: rho * em(t1 - v)[i, 1]) for i in range(2)], 1)

    def execute(self, c):
        import jax
        keys = np.asarray(jax.random.key_data(jax.random.split(jax.random.wrap_key_data(np.asarray(c["key"], np.uint32)), self.B)))
        d = 1 if c["t1"] > c["t0"] else -1
        g = c["t0"] + (c["t1"] - c["t0"]) * np.linspace(0, 1, self.NF + 1)
        a, b = (g[:-1], g[1:]) if d > 0 else (g[1:], g[:-1])
        W, H, K = (np.asarray(x) for x in sut(lambda: self.query(a, b, c["t0"], c["t1"], keys)))
        if d < 0: W, K = -W, -K
        r = self.exact(c, W, H, K)
        errs, oks = [], []
        for s in c["sch"]:
            y, ok = sut(lambda: self.coarse(self.S.schedule_arrays(s, self.M), c["t0"], c["t1"], d * s["dt0"], np.asarray(c["y0"]), np.asarray(c["p"]), keys))
            oks.append(bool(np.all(ok)))
            errs.append(float(np.sqrt(np.mean((np.asarray(y) - r) ** 2))))
        return dict(errs=errs, ok=oks)

    def check(self, c, o, st):
        st.steps += sum(len(s["keep"]) for s in c["sch"]) * self.B
        st.sim_time += 2.0 * self.B
        st.fault("rejected_attempt", sum(len(s["keep"]) - sum(s["keep"]) for s in c["sch"]) * self.B)
        st.probe("strong_convergence_paths", self.B)
        if not all(o["ok"]):
            return V("failed", "a solve with prescribed steps did not succeed")
        e1, e2 = o["errs"]
        rate = float(np.log(e1 / e2) / np.log(4))
        import os
        if os.environ.get("SHOW"): print(self.job["method"], c["t1"] - c["t0"], e1, e2, round(rate, 2), round(e2 / e1 * 4 ** self.p, 2), flush=True)
        if not (np.isfinite(rate) and e2 <= e1 * self.slack * 4.0 ** -self.p) or e1 > 1.5:
            return V("strong_rate", f"{self.job['method']} (direction {1 if c['t1'] > c['t0'] else -1}): errors {e1:.3g} -> {e2:.3g} with 4 times the "
                     f"steps on the same paths, observed rate {rate:.2f}, expected about {self.p}")
        st.nontrivial.add(digest([self.job["name"], c["sch"], c["key"]]))
        return None

    def shrink(self, c):
        return []
