"""C13 Dense output is the solution on every accepted step.

A run is one solve with SaveAt(dense=True, ts=..., t1=True) under a seeded schedule with faults
(rejections, poisoned rejected attempts, jumps, failures, step limits, events, both directions), then
a seeded set of queries of the returned dense solution, resolved against the recorded history."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, digest, rng_for, sut
from . import common as cm

N = 16
NQ = 24
NT = 4

META = dict(
    rule="per job: method, state layout, controller, event kind, loop kind; per run: seeded schedule with faults and 24 seeded queries (inside steps, at step ends, adjacent floats, ends, outside; left and right; values, increments, derivatives)",
    measure="distinct (configuration, accept/reject word, stop kind, query word) with a rejection, jump, early stop or boundary query",
    real=["diffeqsolve", "local and dense interpolation", "Solution.evaluate / derivative", "methods", "adjoint loop kinds", "events", "PID and clip controllers ('real' jobs)", "VirtualBrownianTree ('sde' jobs)"],
    stub=["step size controller (scripted) except in 'real' jobs", "method wrapper injecting faults"],
    assumptions=["dense-output polynomials of the pinned commit are the right ones (frozen table)", "HalfSolver excluded (its dense output is that of the full step)"],
)
METHODS = [m for m in cm.ODE_METHODS if not m.startswith("Half:")]
SDE = ["Euler", "ItoMilstein", "StratonovichMilstein", "SRA1", "ShARK", "EulerHeun"]


def jobs(seed, tier):
    rng = rng_for(seed, "C13", "jobs")
    th = tier != "quick"
    out = []
    perm = [METHODS[i] for i in rng.permutation(len(METHODS))]
    specs = []
    for i in range(len(METHODS) * (4 if th else 1)):
        s = perm[i % len(perm)]
        ev = ["none", "none", "none", "bool", "real", "root"][i % 6]
        specs.append((s, "script", ev, ["rec", "direct", "rec:2", "forward"][int(rng.integers(4))]))
    for s in ["Tsit5", "Bosh3", "Dopri5", "Dopri8", "Heun", "Kvaerno3"][:6 if th else 4]:
        specs.append((s, "real", "none", "rec"))
    for s in [SDE[i] for i in rng.permutation(len(SDE))][:6 if th else 2]:
        specs.append((s, "sde", "none", "rec"))
    for i, (s, kind, ev, adj) in enumerate(specs):
        shape = "pair" if s == "SemiImplicitEuler" else "scalar" if kind == "sde" else ["vec3", "tree", "scalar", "mat"][int(rng.integers(4))] if i > 3 else "tree"
        out.append(dict(name=f"{i:03d}-{kind}-{s}-{shape}-{ev}-{adj}", solver=s, kind=kind, event=ev, adjoint=adj, shape=shape,
                        runs=600 if th else 150, cost=3.0 if s in ref.IMPLICIT else 1.0))
    return out


def derivative(m, a, b, y0, y1, t):
    """Derivative of the reference dense polynomial of one step (a polynomial of degree < 9)."""
    x = np.cos((np.arange(10) + 0.5) * np.pi / 10)
    v = m.dense(a, b, y0, y1, a + (b - a) * 0.5 * (x + 1))
    u = 2 * (t - a) / (b - a) - 1
    c = np.polynomial.chebyshev.chebfit(x, v, 9)
    return np.polynomial.chebyshev.chebval(u, np.polynomial.chebyshev.chebder(c)) * 2 / (b - a)


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, optimistix as optx, diffrax as dfx
        from sim import system as S
        self.job, self.S, self.jax = job, S, jax
        shape = self.shape = S.Shape(job["shape"])
        kind = job["kind"]
        self.imp = job["solver"] in ref.IMPLICIT
        solver = getattr(dfx, job["solver"])() if kind == "sde" else S.make_solver(job["solver"])
        adjoint = S.make_adjoint(job["adjoint"])
        # in 'real' jobs the vector field jumps at args["jump"]
        mod = (lambda t, f, a: f + jnp.where((t - a["tau"]) * a["d"] >= 0, a["h"], 0.0)) if kind == "real" else None
        terms = None if kind == "sde" else S.make_terms(job["solver"], shape, mod)
        M = 80 if kind == "real" else N
        self.M = M

        def solve(x):
            d = jnp.where(x["t0"] < x["t1"], 1.0, -1.0)
            y0 = shape.pack(x["y0"])
            sol, tm = solver, terms
            if kind == "real":
                ctl = S.Recorder(dfx.ClipStepSizeController(dfx.PIDController(rtol=1e-2, atol=1e-3), jump_ts=x["tau"][None]), M)
            else:
                ctl = S.ScriptedController(**x["sc"], with_jump=True, with_code=True)
                sol = S.FaultySolver(solver, x["fl"]["at"], x["fl"]["start"], x["fl"]["kind"])
            if kind == "sde":
                sol = solver
                lv = {"EulerHeun": dfx.BrownianIncrement, "ShARK": dfx.SpaceTimeLevyArea, "SRA1": dfx.SpaceTimeLevyArea}.get(job["solver"], dfx.BrownianIncrement)
                bm = dfx.VirtualBrownianTree(jnp.minimum(x["t0"], x["t1"]), jnp.maximum(x["t0"], x["t1"]) + 1e-3, 2e-3, (), jr.key(3), lv)
                tm = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -a["p"][0] * y), dfx.ControlTerm(lambda t, y, a: jnp.full_like(y, a["p"][1]), bm))
                if not isinstance(sol, dfx.AbstractAdaptiveSolver): ctl = S.PlainScripted(ctl)
            g = lambda t, y, args, **kw: args["d"] * (t - args["te"])
            event = {"none": None, "bool": dfx.Event(lambda t, y, args, **kw: g(t, y, args) >= 0),
                     "real": dfx.Event(g), "root": dfx.Event(g, optx.Newton(1e-11, 1e-11))}[job["event"]]
            s = dfx.diffeqsolve(tm, sol, x["t0"], x["t1"], d * x["dt0"], y0, dict(p=x["p"], te=x["te"], d=d, tau=x["tau"], h=x["h"]),
                                saveat=dfx.SaveAt(dense=True, ts=x["ts"], t1=True, controller_state=True), stepsize_controller=ctl, adjoint=adjoint,
                                max_steps=M, throw=False, event=event)
            return s

        def query(s, q, r):
            pk = lambda y: shape.unpack(y)
            one = lambda a, b: dict(vl=pk(s.evaluate(a)), vr=pk(s.evaluate(a, left=False)), dl=pk(s.derivative(a)), dr=pk(s.derivative(a, left=False)),
                                    il=pk(s.evaluate(a, b)), ir=pk(s.evaluate(a, b, left=False)))
            return jax.vmap(one)(q, r), s.interpolation.t0, s.interpolation.t1
        self.fn = jax.jit(solve)
        self.q = jax.jit(query)
        self.execute(self.gen(rng_for("build"), 0))

    def gen(self, rng, i):
        job, S = self.job, self.S
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        if rng.random() < 0.04 and job["kind"] == "script": t1 = t0
        span = abs(t1 - t0) or 1.0
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d))
        c.update(S.gen_schedule(rng, N, span))
        c["code"], c["faults"] = [0] * N, []
        c["jump"], c["gap"] = [False] * N, [0.0] * N
        k = int(rng.integers(N // 2))
        mode = str(rng.choice(["end", "end", "limit", "code", "fail", "poison", "poison", "jump"]))
        if mode == "limit": c["dt"] = [x * 0.2 for x in c["dt"]]
        if mode == "code": c["code"][k] = int(rng.integers(1, 4))
        if mode == "fail" and c["keep"][k]: c["faults"] = [[k, 1]]
        if mode == "poison": c["faults"] = [[j, int(rng.integers(2, 7))] for j in range(N) if not c["keep"][j] and rng.random() < 0.6]
        if mode == "jump": c["jump"], c["gap"] = [bool(x) for x in rng.random(N) < 0.4], [1e-13] * N
        c["te"] = float(t0 + d * span * (rng.uniform(-0.05, 0.97) if rng.random() < 0.7 else 5.0))
        c["tau"] = float(t0 + d * span * rng.uniform(0.05, 0.9))
        c["h"] = float(rng.choice([-1.0, 1.0]) * rng.uniform(0.5, 2))
        c["tss"] = sorted((float(t0 + (t1 - t0) * u) for u in np.round(rng.random(NT), 3)), reverse=d < 0)
        kinds = ["in", "in", "in", "end", "end", "start", "after", "before", "up", "down", "tau" if job["kind"] == "real" else "in", "last"]
        c["queries"] = [[str(rng.choice(kinds)), float(rng.random()), float(rng.random())] for _ in range(NQ)]
        return c

    def execute(self, c):
        S = self.S
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, s0, s1)
        for k, kind in c["faults"]:
            if k < len(at): fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        f = lambda x: np.asarray(x, float)
        x = dict(t0=f(c["t0"]), t1=f(c["t1"]), dt0=f(c["dt0"]), y0=f(c["y0"]), p=f(c["p"]), te=f(c["te"]), tau=f(c["tau"]), h=f(c["h"]), ts=f(c["tss"]), fl=fl,
                 sc=S.schedule_arrays(c, N))
        s = sut(lambda: self.fn(x))
        log = S.read_log(s.controller_state[1])
        E = [s0] + [min(log["tprev"][k], s1) for k in range(log["n"]) if log["keep"][k]]
        q = []
        for kind, u, v in c["queries"]:
            i = min(int(u * (len(E) - 1)), len(E) - 2) if len(E) > 1 else 0
            e = E[i + 1] if len(E) > 1 else E[0]
            q.append({"in": lambda: E[i] + v * (e - E[i]), "end": lambda: e, "start": lambda: E[0], "last": lambda: E[-1],
                      "after": lambda: E[-1] + (10.0 ** (-6 * v)), "before": lambda: E[0] - (10.0 ** (-6 * v)),
                      "up": lambda: np.nextafter(e, np.inf) if e else 1e-300, "down": lambda: np.nextafter(e, -np.inf) if e else -1e-300,   # (XLA flushes denormals)
                      "tau": lambda: d * c["tau"]}[kind]())
        q = np.asarray([d * t for t in q], float)
        res, a, b = sut(lambda: self.q(s, q, np.roll(q, 1)))
        ts = np.concatenate([f(c["tss"])])
        ev, _, _ = sut(lambda: self.q(s, np.concatenate([ts, np.zeros(NQ - NT)]), np.zeros(NQ)))
        tl = np.asarray(s.ts)
        fin = int(np.sum(np.isfinite(tl)))
        last = tl[fin - 1] if fin else c["t0"]
        el, _, _ = sut(lambda: self.q(s, np.full(NQ, last), np.zeros(NQ)))
        return dict(log=log, E=E, q=q, res={k: np.asarray(v) for k, v in res.items()}, span=(float(a), float(b)), ts=tl, ys=self.shape.flat(s.ys),
                    ev=np.asarray(ev["vl" if d > 0 else "vr"])[:NT], el=np.asarray(el["vl"])[0], result=S.result_name(s.result))

    def check(self, c, o, st):
        job, log, E = self.job, o["log"], o["E"]
        d = 1 if c["t1"] > c["t0"] else -1
        acc = [k for k in range(log["n"]) if log["keep"][k]]
        st.steps += log["n"]
        st.sim_time += E[-1] - E[0]
        word = cm.pattern(log)
        if "r" in word or any(c["jump"]) or any(k[0] != "in" for k in c["queries"]) or o["result"] != "successful":
            st.nontrivial.add(digest([job["name"], word, o["result"], [k[0] for k in c["queries"]]]))
        st.fault("rejected_attempt", word.count("r"))
        st.fault("poisoned_rejected_attempt", sum(1 for k, _ in c["faults"] if k < log["n"] and not log["keep"][k]) if job["kind"] == "script" else 0)
        st.fault("stop_" + o["result"])
        st.fault("jump", sum(bool(c["jump"][k]) for k in acc if k < N) if job["kind"] == "script" else 0)
        hist = f"(attempts {word!r}, accepted ends {[float(d * e) for e in E[1:]]}, result {o['result']})"
        # ---- the time span
        if (o["span"][0], o["span"][1]) != (d * E[0], d * E[-1]):
            return V("span", f"the dense solution claims to cover {o['span']}, the accepted steps cover {(d * E[0], d * E[-1])} {hist}")
        m = ref.Method(job["solver"] if job["kind"] == "script" else "linear" if job["kind"] == "sde" else job["solver"], np.asarray(c["p"]))
        tol = base_tol = 3e-6 if self.imp else 2e-8
        na = len(acc)

        def side(tau, left):
            """The accepted step a query belongs to."""
            i = int(np.searchsorted(E, tau, "left" if left else "right")) - 1
            return min(max(i, 0), na - 1)
        names = dict(vl="evaluate(t)", vr="evaluate(t, left=False)", dl="derivative(t)", dr="derivative(t, left=False)")
        for j, (t, qk) in enumerate(zip(o["q"], c["queries"])):
            tau = d * t
            st.probe("query_" + qk[0])
            for key in ("vl", "vr", "dl", "dr"):
                got = o["res"][key][j]
                what = f"{names[key]} at t={t!r} ({qk[0]}) is {got.tolist()}"
                left = (key[1] == "l") == (d > 0)
                if na == 0 and tau == E[0] and key[0] == "v":
                    if not ref.close(got, c["y0"], 1e-12): return V("trivial", f"{what}, expected y0 = {c['y0']}")
                    continue
                if na == 0 or tau < E[0] or tau > E[-1]:
                    if not np.all(np.isnan(got)): return V("outside", f"{what} outside of the span {o['span']}, expected NaN {hist}")
                    continue
                k = acc[side(tau, left)]
                a, b, ya, yb = log["t0"][k], log["t1"][k], log["y0"][k], log["y1"][k]
                if not np.all(np.isfinite([ya, yb])): continue
                if job["kind"] == "real":
                    # the vector field is the reference one plus a constant on the far side of the jump
                    m = _Shifted(job["solver"], np.asarray(c["p"]), c["h"] if a >= d * c["tau"] else 0.0)
                # (after a jump the dense output of a step is stretched by the gap; visible on tiny steps only)
                tol = base_tol + 50 * abs(E[side(tau, left) + 1] - b) / (b - a)
                if key[0] == "v":
                    want = m.dense(d * a, d * b, ya, yb, [d * min(max(tau, a), b)])[0]
                    if not ref.close(got, want, tol): return V("value", f"{what}, the accepted step over [{d * a!r}, {d * b!r}] gives {want.tolist()} {hist}")
                    if tau == E[side(tau, left) + 1] and not ref.close(got, yb, tol): return V("end", f"{what}, the accepted state at this step end is {yb.tolist()} {hist}")
                else:
                    want = derivative(m, d * a, d * b, ya, yb, d * tau)
                    slack = tol * (1 + np.max(np.abs([ya, yb]))) / abs(b - a)
                    if not np.all(np.abs(got - want) <= slack + 1e-6 * (1 + np.abs(want))):
                        return V("derivative", f"{what}, the accepted step over [{d * a!r}, {d * b!r}] has slope {want.tolist()} {hist}")
            for key, base in (("il", "vl"), ("ir", "vr")):
                got = o["res"][key][j]
                want = o["res"][base][j - 1] - o["res"][base][j]
                if not np.allclose(got, want, rtol=1e-10, atol=1e-12, equal_nan=True):
                    return V("increment", f"evaluate({t!r}, {o['q'][j - 1]!r}{', left=False' if key == 'ir' else ''}) is {got.tolist()}, but the values differ by {want.tolist()} {hist}")
        # ---- against SaveAt(ts=...)
        fin = int(np.sum(np.isfinite(o["ts"])))
        for i in range(min(fin, NT)):
            if o["ts"][i] != c["tss"][i] or c["t0"] == c["t1"]: break
            if d * o["ts"][i] == E[0] or i == fin - 1 and job["event"] == "root": continue
            if np.all(np.isfinite(o["ys"][i])) and not ref.close(o["ev"][i], o["ys"][i], 1e-10):
                return V("saveat", f"evaluate({o['ts'][i]!r}) is {o['ev'][i].tolist()}, SaveAt(ts=...) recorded {o['ys'][i].tolist()} {hist}")
        tol = base_tol
        if fin and na and np.all(np.isfinite(o["ys"][fin - 1])) and not ref.close(o["el"], o["ys"][fin - 1], tol):
            return V("final", f"evaluate at the final time {o['ts'][fin - 1]!r} is {o['el'].tolist()}, the final value is {o['ys'][fin - 1].tolist()} {hist}")
        return None

    def shrink(self, c):
        import copy
        for k in range(NQ):
            if c["queries"][k] != ["start", 0.0, 0.0]:
                e = copy.deepcopy(c); e["queries"][k] = ["start", 0.0, 0.0]; yield e
        yield from self.S.shrink_schedule(c)


class _Shifted(ref.Method):
    """The reference method for the vector field plus a constant."""
    def __init__(self, name, p, h):
        super().__init__(name, p)
        self.h = h

    def f(self, t, y):
        return super().f(t, y) + self.h
