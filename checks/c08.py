"""C08: events stop the solve at the first trigger, and nowhere else."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one solve under a seeded schedule (accept/reject word, sizes, jumps, controller errors) with seeded event "
         "conditions; non-trivial = an event occurs, or a crossing lies inside a rejected attempt or is undone before the step end; "
         "distinct by (configuration, accept/reject word, sign word of every condition, outcome)",
    measure="distinct (configuration, accept/reject word, sign word of every condition at the accepted ends, outcome)",
    real=["diffeqsolve loop", "Event / steady_state_event / DiscreteTerminatingEvent", "event root finding on dense output", "Newton / Bisection / Chord root finders", "methods"],
    stub=["step size controller (scripted scheduler)"],
    assumptions=["a condition value of exactly zero has sign zero", "when several crossings lie in one step any of them may be located"],
)
N = 16
METHODS = ["Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ReversibleHeun", "LeapfrogMidpoint",
           "SemiImplicitEuler", "Kvaerno3", "KenCarp4", "ImplicitEuler", "Sil3", "Half:Heun"]
# every condition: value = B*(t - te) + (A*sin(w*t + ph) + C.y - L);  bool conditions: value > 0 (or >=)
FIXED = [  # structure: list of (kind, direction); root finder; container
    (["r*"], "newton", "single"), (["r+"], "newton", "single"), (["r-"], "newton", "single"), (["r*"], "bisect", "single"),
    (["b"], None, "single"), (["b"], "newton", "single"), (["r+", "r-"], "newton", "list"), (["b", "r*", "r-"], "newton", "dict"),
    (["r-", "b", "r+"], None, "tuple"), (["r-"], None, "single"), (["r+"], "bisect", "single"), (["r*", "b", "b", "r+"], "newton", "nest"),
]


def jobs(seed, tier):
    rng = rng_for(seed, "C08", "jobs")
    th = tier != "quick"
    out = []
    perm = [METHODS[i] for i in rng.permutation(len(METHODS))]
    for i in range(100 if th else 22):
        if i < len(FIXED):
            conds, rf, cont = FIXED[i]
        else:
            conds = [["r*", "r+", "r-", "b"][int(rng.integers(4))] for _ in range(int(rng.integers(1, 5)))]
            rf = [None, "newton", "newton", "chord"][int(rng.integers(4))]
            cont = "single" if len(conds) == 1 else ["list", "tuple", "dict", "nest"][int(rng.integers(4))]
        s = perm[i % len(perm)]
        if rf and s.startswith("Half:"):
            s = "Heun"
        shape = "pair" if s == "SemiImplicitEuler" else ["vec3", "tree", "scalar"][int(rng.integers(3))]
        adj = ["rec", "direct", "rec:2", "forward"][int(rng.integers(4))]
        out.append(dict(kind="script", name=f"e{i:03d}-{s}-{shape}-{rf}-{cont}-{adj}-{'jump' if i % 3 == 2 else 'nojump'}-" + "".join(conds), solver=s, conds=conds,
                        root=rf, container=cont, shape=shape, adjoint=adj, jump=i % 3 == 2, save=["ts", "steps", "t1"][i % 3],
                        runs=900 if th else 300, cost=2.0 if s in ref.IMPLICIT else 1.2))
    st = [("Tsit5", "event", "rec"), ("Kvaerno3", "event", "rec"), ("Heun", "old", "rec"), ("Euler", "tols", "direct"), ("KenCarp4", "event", "rec"),
          ("Tsit5", "event", "implicit"), ("Half:Midpoint", "old_tols", "rec"), ("Dopri5", "oldfn", "rec"), ("Bosh3", "and_real", "rec"), ("ReversibleHeun", "event", "rec")]
    for s, mode, adj in st:
        out.append(dict(kind="steady", name=f"y-{s}-{mode}-{adj}", solver=s, mode=mode, adjoint=adj, shape=["vec3", "tree"][int(rng.integers(2))],
                        runs=600 if th else 200, cost=1.5))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, optimistix as optx, diffrax as dfx
        from sim import system as S
        self.job, self.S = job, S
        shape = self.shape = S.Shape(job["shape"])
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        if job["kind"] == "steady":
            return self._init_steady()
        solver = S.make_solver(job["solver"])
        terms = S.make_terms(job["solver"], shape)
        adjoint = S.make_adjoint(job["adjoint"])
        conds = job["conds"]

        def value(i):
            def g(t, y, args, **kw):
                e = args["ev"][i]
                return e["B"] * (t - e["te"]) + (e["A"] * jnp.sin(e["w"] * t + e["ph"]) + jnp.dot(e["C"], shape.unpack(y)) - e["L"])
            return g

        def cond(i, kind):
            if kind == "b":
                return lambda t, y, args, **kw: value(i)(t, y, args) >= 0
            return value(i)
        dirs = [dict(zip("*+-b", (None, True, False, True)))[k[-1]] for k in conds]
        fns = [cond(i, k) for i, k in enumerate(conds)]
        cont = job["container"]
        pack = {"single": lambda x: x[0], "list": list, "tuple": tuple,
                "dict": lambda x: {f"k{i}": v for i, v in enumerate(x)},
                "nest": lambda x: {"p": (x[0],), "q": list(x[1:])}}[cont]
        self.unpack = {"single": lambda x: [x], "list": list, "tuple": list,
                       "dict": lambda x: [x[f"k{i}"] for i in range(len(conds))],
                       "nest": lambda x: [x["p"][0], *x["q"]]}[cont]
        rf = {None: None, "newton": optx.Newton(1e-11, 1e-11), "bisect": optx.Bisection(1e-11, 1e-11), "chord": optx.Chord(1e-9, 1e-9)}[job["root"]]

        def solve(sc, t0, t1, dt0, y0, p, ev, tss):
            ctl = S.ScriptedController(**sc, with_jump=job["jump"], with_code=True)
            d = dirs[0] if cont == "single" or len(set(dirs)) == 1 and len(conds) > 2 else pack(dirs)
            event = dfx.Event(pack(fns), rf, direction=d)
            sub = dict(ts=dfx.SubSaveAt(ts=tss, t0=True), steps=dfx.SubSaveAt(steps=1, t0=True), t1=dfx.SubSaveAt(t0=True))[job["save"]]
            s = dfx.diffeqsolve(terms, solver, t0, t1, dt0, shape.pack(y0), dict(p=p, ev=ev),
                                saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(t1=True), sub], controller_state=True, solver_state=True, made_jump=True), stepsize_controller=ctl,
                                adjoint=adjoint, max_steps=N, throw=False, event=event)
            return s.ts, s.ys, s.controller_state[1], s.result, s.event_mask, s.stats
        self.fn = jax.jit(solve)
        self.execute(self.gen(rng_for("build"), 0))

    # ---------------------------------------------------------------- generated conditions
    def gen(self, rng, i):
        if self.job["kind"] == "steady":
            return self._gen_steady(rng, i)
        job, S = self.job, self.S
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        if rng.random() < 0.03:
            t1 = t0
        span = abs(t1 - t0) or 1.0
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d))
        c.update(S.gen_schedule(rng, N, span))
        if rng.random() < 0.3:
            c["dt"] = [x * 0.4 for x in c["dt"]]
        c["code"] = [0] * N
        if rng.random() < 0.1:
            c["code"][int(rng.integers(N))] = int(rng.integers(1, 4))
        if job["jump"]:
            c["jump"] = [bool(x) for x in rng.random(N) < 0.3]
            c["gap"] = [float(rng.choice([0.0, 1e-9, 1e-3 * span])) for _ in range(N)]
        s0, s1 = d * t0, d * t1
        at = S.model_attempts(c, s0, s1)
        acc = [iv for k, iv in enumerate(at) if c["keep"][k]]
        c["ev"] = []
        dim = self.shape.d
        exact_ok = job["root"] != "bisect"
        for k in range(len(job["conds"])):
            e = dict(B=0.0, te=0.0, A=0.0, w=1.0, ph=0.0, C=[0.0] * dim, L=0.0)
            r = rng.random()
            sgn = float(rng.choice([-1.0, 1.0])) * d
            if r < 0.12:                                # never near zero
                e["L"] = float(rng.choice([-50.0, 50.0]) if job["conds"][k] != "b" else 50.0)
            elif r < 0.55 and at:                       # crosses in (or at an edge of) a chosen attempt, rejected ones included
                a, b = at[int(rng.integers(len(at)))]
                u = float(rng.choice([0.0, 1.0, 1.0, rng.random(), rng.random()])) if exact_ok else float(rng.uniform(0.05, 0.95))
                e.update(B=sgn, te=d * (a if u == 0 else b if u == 1 else a + u * (b - a)))
            elif r < 0.75:                              # several crossings, also inside one step
                h = span / rng.integers(1, 6)
                e.update(A=1.0, w=float(np.pi / h * rng.uniform(0.5, 4)), ph=float(rng.uniform(0, 6)), L=float(rng.uniform(-0.5, 0.5)))
            elif r < 0.95:                              # depends on the state
                e.update(C=[float(x) for x in np.round(rng.normal(size=dim), 2)])
                e["L"] = float(np.dot(e["C"], c["y0"]) + rng.normal() * 0.3 * span)
                if job["conds"][k] == "b" and rng.random() < 0.7:
                    e["L"] = float(np.dot(e["C"], c["y0"]) + abs(rng.normal()) * 0.5 * span)
            else:                                       # exactly zero at t0
                e.update(B=sgn, te=t0) if exact_ok else e.update(L=50.0)
            c["ev"].append(e)
        c["tss"] = sorted((float(t0 + d * abs(t1 - t0) * u) for u in np.round(rng.random(6), 3)), reverse=d < 0)
        if rng.random() < 0.1 and job["save"] != "ts" and t1 != t0:
            c["t1"] = d * float("inf")
        return c

    def execute(self, c):
        S = self.S
        if self.job["kind"] == "steady":
            return self._execute_steady(c)
        d = 1 if c["t1"] >= c["t0"] else -1
        ev = [{k: np.asarray(v, float) for k, v in e.items()} for e in c["ev"]]
        ts, ys, log, result, mask, stats = sut(lambda: self.fn(S.schedule_arrays(c, N), *(np.asarray(x, float) for x in (c["t0"], c["t1"], d * c["dt0"], c["y0"], c["p"])),
                                              ev, np.asarray(c["tss"])))
        return dict(tf=float(ts[0][0]), yf=self.shape.flat(ys[0])[0], ts=np.asarray(ts[1]), ys=self.shape.flat(ys[1]), log=S.read_log(log),
                    result=S.result_name(result), mask=[bool(x) for x in self.unpack(mask)], n=int(stats["num_steps"]))

    def value(self, c, i, t, y):
        e = c["ev"][i]
        rest = e["A"] * np.sin(e["w"] * t + e["ph"]) + np.dot(e["C"], y) - e["L"]
        return e["B"] * (t - e["te"]) + rest

    def check(self, c, o, st):
        if self.job["kind"] == "steady":
            return self._check_steady(c, o, st)
        job, log = self.job, o["log"]
        conds = job["conds"]
        d = 1 if c["t1"] >= c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        n = log["n"]
        st.steps += n
        v, ends = cm.check_schedule(log, s0, s1, c["dt0"]) if s1 < np.inf else (None, [])
        if v: return v
        if o["n"] != n:
            return V("stop", f"{o['n']} attempts reported, {n} made")

        def vals(s, y):
            return [self.value(c, i, d * s, y) for i in range(len(conds))]

        def near(i, x):   # too close to zero to call (unless the condition is evaluated exactly)
            e = c["ev"][i]
            if e["A"] == 0 and not any(e["C"]) and e["L"] == 0:
                return x != 0 and abs(x) < 1e-15
            return abs(x) < 1e-8
        y, s = np.asarray(c["y0"], float), s0
        cur = vals(s, y)
        words = ["".join("-0+"[int(np.sign(x)) + 1] for x in cur)]
        if any(near(i, x) for i, x in enumerate(cur)): return None
        trig = [k == "b" and x >= 0 for k, x in zip(conds, cur)]
        stop, outcome, left = None, None, (s0, s0, y, y)
        if any(trig):
            stop, outcome = 0, "event_occurred"
        undone = False
        if stop is None:
            for k in range(n):
                keep = bool(log["keep"][k])
                code = c["code"][k] if k < len(c["code"]) else 0
                if keep:
                    y, s = log["y1"][k], min(log["tprev"][k], s1)
                    new = vals(s, y)
                    if any(near(i, x) for i, x in enumerate(new)): return None
                    for i, kind in enumerate(conds):
                        a, b = np.sign(cur[i]), np.sign(new[i])
                        trig[i] = {"r*": a != b, "r+": a <= 0 < b, "r-": b <= 0 < a, "b": b >= 0}[kind]
                    if not any(trig):
                        mid = d * (log["t0"][k] + log["t1"][k]) / 2
                        undone |= any(np.sign(self.value(c, i, mid, y)) != np.sign(new[i]) for i in range(len(conds)))
                    cur = new
                    words.append("".join("-0+"[int(np.sign(x)) + 1] for x in cur))
                    left = (log["t0"][k], log["t1"][k], log["y0"][k], log["y1"][k])
                else:
                    trig = [kind == "b" and cur[i] >= 0 for i, kind in enumerate(conds)]
                    yr = vals(log["t1"][k], log["y1"][k])
                    undone |= any(np.sign(p) != np.sign(q) for p, q in zip(yr, cur))
                    st.fault("rejected_attempt")
                if code:
                    stop, outcome = k + 1, self.S.CODES[code]
                    st.fault("controller_error")
                    trig = [False] * len(conds)
                    break
                if any(trig):
                    stop, outcome = k + 1, "event_occurred"
                    break
        if undone: st.probe("crossing_not_at_accepted_end")
        if s == -np.inf or np.isinf(s): s = s1
        st.sim_time += float(s - s0) if np.isfinite(s) else 0
        word = cm.pattern(log)
        if outcome is not None or undone:
            st.nontrivial.add(digest([job["name"], word, words, outcome]))
        if stop is not None and n > stop:
            return V("late", f"{n} attempts made, an event ({trig}) should have stopped the solve after {stop}; signs {words}")
        if stop is None:
            outcome = "successful" if s >= s1 else "max_steps_reached" if n == N else None
            if outcome is None:
                return V("early", f"solve stopped after {n} attempts at t={d*s}, no event triggered; result {o['result']}; signs {words}")
        first = [t and not any(trig[:i]) for i, t in enumerate(trig)] if outcome == "event_occurred" else [False] * len(conds)
        if outcome != "event_occurred":
            if o["result"] != outcome:
                return V("result", f"result {o['result']}, expected {outcome}; signs {words}")
            if any(o["mask"]):
                return V("mask", f"mask {o['mask']} but no event triggered; signs {words}")
        else:
            st.fault("event")
            if o["mask"] != first:
                return V("mask", f"event mask {o['mask']}, expected {first}; kinds {conds}, signs {words}")
        # final time and value
        located = outcome == "event_occurred" and job["root"] is not None
        tf, yf = o["tf"], o["yf"]
        tol = ref.tol_for(job["solver"])
        if not located:
            if o["result"] != outcome:
                return V("result", f"result {o['result']}, expected {outcome}; signs {words}")
            if d * tf != s and not abs(d * tf - s) < 1e-14:
                return V("final_time", f"final time {tf!r}, expected {d*s!r}; outcome {outcome}")
            if not ref.close(yf, y, 1e-12):
                return V("final_value", f"final value {yf}, expected {y}")
        else:
            i = first.index(True)
            a, b, ya, yb = left
            if conds[i] != "b" and stop and np.sign(self.value(c, i, d * b, yb)) != np.sign(self.value(c, i, d * s, y)):
                return None   # the crossing lies in the gap of a jump, between two steps
            if conds[i] == "b":
                if o["result"] != "event_occurred":
                    return V("result", f"result {o['result']}, expected event_occurred")
                if abs(d * tf - b) > 1e-9:
                    return V("final_time", f"boolean event: final time {tf!r}, the step ends at {d*b!r}")
                want = yb
            else:
                m = self._dense(c, d, left)
                if o["result"] != "event_occurred":
                    # Newton's method may fail, but not on a condition that is monotone in the step
                    g = [self.value(c, i, d * x, m(x)) for x in np.linspace(a, b, 41)]
                    e = c["ev"][i]
                    smooth = e["A"] == 0 and (not any(e["C"]) or np.min(np.abs(np.diff(g))) > 0.3 * np.max(np.abs(np.diff(g)))
                                              and np.all(np.sign(np.diff(g)) == np.sign(g[-1] - g[0])))
                    if (smooth or job["root"] == "bisect") and job["root"] != "chord" and b - a > 1e-4:
                        return V("result", f"result {o['result']}, expected event_occurred (root finder {job['root']})")
                    if o["result"] != "other":
                        return V("result", f"result {o['result']}, expected event_occurred or a root finder failure")
                    return None
                if not a - 1e-12 <= d * tf <= b + 1e-12:
                    return V("final_time", f"located event at {tf!r} outside of the step [{d*a!r}, {d*b!r}]")
                want = m(d * tf)
                g = self.value(c, i, tf, want)
                e = c["ev"][i]
                slope = abs(e["B"]) + abs(e["A"] * e["w"]) + np.sum(np.abs(e["C"])) * (1 + np.max(np.abs(yb - ya)) / (b - a))
                if abs(g) > (1e-7 if not self.imp else 1e-6) * (1 + slope):
                    return V("not_a_root", f"condition {i} is {g} at the final time {tf!r} (step [{d*a!r}, {d*b!r}])")
            if not ref.close(yf, want, max(tol, 1e-8)):
                return V("final_value", f"final value {yf} at {tf!r}, the solution there is {want} (step [{d*a!r}, {d*b!r}])")
        # outputs
        return self._check_saves(c, o, d, s0, d * tf, log, outcome, located, left)

    def _dense(self, c, d, left):
        a, b, ya, yb = left
        if self.job["solver"] in ref.DENSE:
            M = ref.Method(self.job["solver"], c["p"])
            return lambda x: M.dense(d * a, d * b, ya, yb, [d * x])[0]
        return lambda x: ya + (x - a) / (b - a) * (yb - ya) if b > a else yb

    def _check_saves(self, c, o, d, s0, sf, log, outcome, located, left):
        kind, ts = self.job["save"], o["ts"]
        used = np.sum(np.isfinite(ts))
        fin = [d * t for t in ts[:used]]
        if not np.all(np.isposinf(ts[used:])):
            return V("padding", f"unused output slots {ts[used:]}")
        if fin != sorted(fin):
            return V("order", f"outputs at {ts[:used]}")
        acc = [min(log["tprev"][k], d * c["t1"]) for k in range(log["n"]) if log["keep"][k]]
        if kind == "t1":
            want = [s0]
        elif kind == "ts":
            if c["t0"] == c["t1"]: return None
            if log["n"] == 0 or not acc: want = [s0]
            else: want = [s0] + [d * t for t in c["tss"] if d * t <= min(sf, acc[-1])]
            if any(abs(d * t - x) < 1e-9 and t != c["t0"] for t in c["tss"] for x in (sf, acc[-1] if acc else s0)): return None
        else:
            if located and acc and any(0 < abs(x - sf) < 1e-9 for x in acc): return None
            want = [s0] + [x for x in acc if x <= sf or not located]
            if located and acc and acc[-1] > sf: want.append(sf)
        if len(want) != len(fin) or not np.allclose(want, fin, rtol=1e-12, atol=1e-12):
            return V("outputs", f"outputs at {fin}, expected {want} (normalised time; final {sf}, outcome {outcome})")
        if located and kind == "ts":   # the outputs inside the final step are the solution there
            m = self._dense(c, d, left)
            for x, y in zip(fin[1:], o["ys"][1:used]):
                if left[0] < x <= left[1] and not ref.close(y, m(x), max(ref.tol_for(self.job["solver"]), 1e-8)):
                    return V("output_value", f"output at {x} is {y}, expected {m(x)}")
        return None

    # ---------------------------------------------------------------- steady states
    def _init_steady(self):
        import jax, jax.numpy as jnp, optimistix as optx, diffrax as dfx, warnings
        S, job, shape = self.S, self.job, self.shape
        solver = S.make_solver(job["solver"])
        base = job["solver"].split(":")[-1]
        def f(t, y, a, im=True, ex=True):
            v = shape.unpack(y)
            r = (-a["k"] * (v - a["c"]) if im else 0.0) + (0.2 * a["s"] * jnp.exp(-t * a["s"]) * v if ex else 0.0)
            return shape.pack(r * a["s"])
        if base in ref.IMEX:
            terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: f(t, y, a, im=False)), dfx.ODETerm(lambda t, y, a: f(t, y, a, ex=False)))
        else:
            terms = dfx.ODETerm(f)
        mode = job["mode"]

        def run(sc, t0, t1, dt0, y0, a, adjoint, record):
            tol = dict(rtol=a["rtol"], atol=a["atol"])
            ctl = S.ScriptedController(**sc, with_jump=False, with_code=False, record=record, **tol)
            kw = {}
            if mode == "event": kw["event"] = dfx.Event(dfx.steady_state_event())
            elif mode == "tols": kw["event"] = dfx.Event(dfx.steady_state_event(a["rtol"], a["atol"], optx.max_norm))
            elif mode == "and_real": kw["event"] = dfx.Event([dfx.steady_state_event(), lambda t, y, a, **k: t - a["te"]], optx.Newton(1e-10, 1e-10))
            elif mode == "old": kw["discrete_terminating_event"] = dfx.SteadyStateEvent()
            elif mode == "old_tols": kw["discrete_terminating_event"] = dfx.SteadyStateEvent(a["rtol"], a["atol"])
            else: kw["discrete_terminating_event"] = dfx.DiscreteTerminatingEvent(
                lambda state, **k: jnp.max(jnp.abs(shape.unpack(state.y) - k["args"]["c"])) + 0 * state.tprev < a["atol"] * 30)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = dfx.diffeqsolve(terms, solver, t0, t1, dt0, shape.pack(y0), a, saveat=dfx.SaveAt(t1=True, controller_state=record),
                                    stepsize_controller=ctl, adjoint=adjoint, max_steps=N, throw=False, **kw)
            return s.ts, s.ys, (s.controller_state[1] if record else None), s.result, s.event_mask, s.stats["num_steps"]

        def solve(sc, t0, t1, dt0, y0, a):
            main = run(sc, t0, t1, dt0, y0, a, S.make_adjoint("rec" if job["adjoint"] == "implicit" else job["adjoint"]), True)
            second = run(sc, t0, t1, dt0, y0, a, dfx.ImplicitAdjoint(), False) if job["adjoint"] == "implicit" else None
            return main, second
        self.fn = jax.jit(solve)
        self.execute(self.gen(rng_for("build"), 0))

    def _gen_steady(self, rng, i):
        d = 1 if rng.random() < 0.6 else -1
        t0 = float(rng.choice([0.0, 1.0, -2.0]))
        k = float(rng.uniform(0.5, 2))
        c = dict(t0=t0, t1=d * float(rng.choice([np.inf, 30.0])) + t0, y0=[float(x) for x in np.round(3 * rng.normal(size=self.shape.d), 2)],
                 k=k, c=float(np.round(rng.normal(), 2)), rtol=float(10 ** rng.uniform(-3, -0.7)), atol=float(10 ** rng.uniform(-3, -1)))
        c.update(self.S.gen_schedule(rng, N, 8.0 / k, style=["uniform", "bursts", "clean", "shrink"][int(rng.integers(4))]))
        c["dt"] = [min(x, 1.2 / k) for x in c["dt"]]
        c["dt0"] = min(c["dt0"], 1.2 / k)
        c["te"] = t0 + d * float(rng.uniform(1, 12)) / k
        if rng.random() < 0.1: c["y0"] = [c["c"]] * self.shape.d
        return c

    def _execute_steady(self, c):
        S = self.S
        d = 1 if c["t1"] >= c["t0"] else -1
        a = {k: np.asarray(c[k], float) for k in ("k", "c", "rtol", "atol", "te")}
        a["s"] = np.asarray(float(d))
        main, second = sut(lambda: self.fn(S.schedule_arrays(c, N), *(np.asarray(x, float) for x in (c["t0"], c["t1"], d * c["dt0"], c["y0"])), a))
        def obs(x):
            ts, ys, log, result, mask, n = x
            m = mask if isinstance(mask, list) else [mask]
            return dict(tf=float(ts[0]), yf=self.shape.flat(ys)[0], log=None if log is None else S.read_log(log), result=S.result_name(result),
                        mask=[bool(q) for q in m], n=int(n))
        return dict(main=obs(main), second=None if second is None else obs(second))

    def _check_steady(self, c, o, st):
        job, m = self.job, o["main"]
        log, n = m["log"], m["log"]["n"]
        d = 1 if c["t1"] >= c["t0"] else -1
        st.steps += n
        if m["n"] != n:
            return V("stop", f"{m['n']} attempts reported, {n} made")
        mode = job["mode"]

        def f(s, y):
            t = d * s
            return d * (-c["k"] * (y - c["c"]) + 0.2 * d * np.exp(-t * d) * y)

        def metric(s, y):
            if mode == "oldfn":
                return np.max(np.abs(y - c["c"])) - c["atol"] * 30
            if mode == "tols":
                nf, ny = np.max(np.abs(f(s, y))), np.max(np.abs(y))
            else:
                if self.shape.kind == "tree": # rms over all the elements
                    pass
                nf, ny = np.sqrt(np.mean(f(s, y) ** 2)), np.sqrt(np.mean(y ** 2))
            return nf - (c["atol"] + c["rtol"] * ny)
        s, y = d * c["t0"], np.asarray(c["y0"], float)
        q = metric(s, y)
        if abs(q) < 1e-9: return None
        stop = 0 if q < 0 else None
        hits = [q < 0, False]
        last = None
        old = s - d * c["te"]
        if stop is None:
            for k in range(n):
                if log["keep"][k]:
                    s, y = log["tprev"][k], log["y1"][k]
                    s = min(s, d * c["t1"])
                    q = metric(s, y)
                    if abs(q) < 1e-9: return None
                    new = s - d * c["te"]
                    hits = [q < 0, mode == "and_real" and np.sign(old) != np.sign(new)]
                    old = new
                    last = (log["t0"][k], log["t1"][k], log["y0"][k], log["y1"][k])
                    if any(hits):
                        stop = k + 1
                        break
                else:
                    st.fault("rejected_attempt")
        st.sim_time += float(s - d * c["t0"])
        word = cm.pattern(log)
        st.nontrivial.add(digest([job["name"], word, stop, hits]))
        if stop is not None:
            st.fault("event")
            if n > stop:
                return V("late", f"steady state after {stop} attempts, {n} made")
            if m["result"] != "event_occurred":
                return V("result", f"result {m['result']} at a steady state")
        else:
            want = "successful" if s >= d * c["t1"] else "max_steps_reached"
            if want == "max_steps_reached" and n < N:
                return V("early", f"stopped after {n} attempts with result {m['result']} although |f| is above the tolerance by {q}")
            if m["result"] != want:
                return V("result", f"result {m['result']}, expected {want}")
        first = [hits[0], hits[1] and not hits[0]][:len(m["mask"])]
        if m["mask"] != first:
            return V("mask", f"event mask {m['mask']}, expected {first}")
        if mode == "and_real" and stop is not None:
            if hits[0] and stop == 0: sf, yf = s, y
            elif hits[0]: sf, yf = last[1], last[3]
            else: sf, yf = d * c["te"], None
        else:
            sf, yf = s, y
        if abs(d * m["tf"] - sf) > 1e-9:
            return V("final_time", f"final time {m['tf']!r}, expected {d*sf!r}")
        if yf is not None and not ref.close(m["yf"], yf, max(1e-8, ref.tol_for(job["solver"]))):
            return V("final_value", f"final value {m['yf']}, expected {yf}")
        if o["second"] is not None:
            z = o["second"]
            if z["result"] != m["result"] or z["mask"] != m["mask"] or z["n"] != m["n"] or abs(z["tf"] - m["tf"]) > 1e-9 or not ref.close(z["yf"], m["yf"], 1e-9):
                return V("implicit_adjoint", f"ImplicitAdjoint solve gives {z}, RecursiveCheckpointAdjoint gives {dict(m, log=None)}")
        return None

    def shrink(self, c):
        import copy
        yield from self.S.shrink_schedule(c)
        if self.job["kind"] == "script":
            for i, e in enumerate(c["ev"]):
                if e["A"] or any(e["C"]) or e["B"]:
                    x = copy.deepcopy(c)
                    x["ev"][i] = dict(e, A=0.0, B=0.0, C=[0.0] * len(e["C"]), L=50.0)
                    yield x
