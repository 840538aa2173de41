"""C05: prescribed step and jump times are always respected."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one solve (or one interrupted and resumed with an arbitrary dt0) under ClipStepSizeController with seeded step_ts/jump_ts "
         "and a seeded inner controller; non-trivial = at least one clipped attempt; distinct by (configuration, direction, accept/reject "
         "word, which attempts were clipped by what)",
    measure="distinct (configuration, accept/reject word, clip word per attempt)",
    real=["ClipStepSizeController (also nested, and through PIDController(step_ts=..., jump_ts=...))", "diffeqsolve loop",
          "FSAL caches / jump refresh of all Runge-Kutta methods, ReversibleHeun, HalfSolver", "PIDController (pid jobs)"],
    stub=["scripted inner controller (scripted jobs)", "chaotic error estimate (pid jobs)", "vector field constant between jumps, poisoned at them"],
    assumptions=["prescribed times within ~100 ulp of t1 and jump times equal to t0 or t1 are not generated (the last step is rounded to end at t1)"],
)
N = 64
METHODS = [m for m in cm.ODE_METHODS if "Leapfrog" not in m]
FSAL = ["Tsit5", "Dopri5", "Bosh3", "ReversibleHeun", "Half:Tsit5", "KenCarp3", "Kvaerno3", "Half:ReversibleHeun"]


def jobs(seed, tier):
    rng = rng_for(seed, "C05", "jobs")
    out = []
    th = tier != "quick"

    def add(s, inner, kind, rb, resume, f32, adj):
        out.append(dict(name=f"{len(out):03d}-{s}-{inner}-{kind}-rej{rb}{'-resume' if resume else ''}{'-f32' if f32 else ''}-{adj}",
                        solver=s, inner=inner, kind=kind, rejbuf=rb, resume=resume, f32=f32, adjoint=adj,
                        runs=(40 if s.split(":")[-1] in ref.IMPLICIT else 120) * (5 if th else 1), cost=3 if s.split(":")[-1] in ref.IMPLICIT else 1))
    adjs = ["rec", "direct", "forward"]
    kinds = ["step", "jump", "both", "nested_sj", "nested_js", "both"]
    for rep in range(6 if th else 2):
        off = int(rng.integers(6))
        for i, s in enumerate(METHODS):
            rb = int(rng.choice([0, 0, 1, 2, 3, 8]))
            inner = ["scripted", "pid", "scripted", "metapid"][(i + off) % 4]
            kind = kinds[(i + off + rep) % 6]
            if inner == "metapid": rb, kind = 0, ["step", "jump", "both"][i % 3]
            add(s, inner, kind, rb, rng.random() < 0.3 and not rb, rng.random() < 0.2 and s not in ref.IMPLICIT and "Kvaerno" not in s, adjs[int(rng.integers(3))])
        for i, s in enumerate(FSAL):
            add(s, "scripted", ["jump", "both"][i % 2], [0, 0, 2, 0, 8, 0, 1, 0][i], i in (1, 3), False, adjs[i % 3])
        add("Heun", "scripted", "none", 2, False, False, "rec")
        add("Tsit5", "pid", "none", 3, False, False, "direct")
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, diffrax as dfx
        from sim import system as S
        self.job, self.S = job, S
        self.base = job["solver"].split(":")[-1]
        self.imp = self.base in ref.IMPLICIT
        tab = ref.TABLEAUS.get(self.base)
        self.cmax = 1.0 if tab is None else max(max(t["c"]) for t in (tab if isinstance(tab, list) else [tab]))
        self.td = np.float32 if job["f32"] else np.float64
        self.NS = 6 if job["kind"] in ("step", "both", "nested_sj", "nested_js") else 0
        self.NJ = 4 if job["kind"] in ("jump", "both", "nested_sj", "nested_js") else 0
        shape = S.Shape("pair" if self.base == "SemiImplicitEuler" else "vec3")
        self.shape = shape

        def mod(t, f, args):
            j = args["jumps"]
            c = args["c"][jnp.sum(t > j)]
            return f * 0 + jnp.where(jnp.any(t == j), 1e3, c)
        terms = S.make_terms(job["solver"], shape, mod)
        solver0 = S.make_solver(job["solver"])
        adjoint = S.make_adjoint(job["adjoint"])

        def run(ms, c, t0, t1, dt0, y0, states):
            kw = dict(pcoeff=c["pid"][0], icoeff=c["pid"][1], dcoeff=c["pid"][2], rtol=np.zeros((), self.td), atol=np.ones((), self.td))
            sts, jts = c["step_ts"], c["jump_ts"]
            kind = job["kind"]
            solver = solver0
            if job["inner"] != "scripted":
                solver = S.NoisyError(solver0, c["amp"])
            if job["inner"] == "metapid":
                ctl = dfx.PIDController(**kw, step_ts=sts if "step" in kind or kind == "both" else None,
                                        jump_ts=jts if kind in ("jump", "both") else None)
                if kind == "none": raise AssertionError
            else:
                inner = (S.ScriptedController(**c["sc"], with_jump=False, with_code=False, record=False) if job["inner"] == "scripted"
                         else dfx.PIDController(**kw))
                inner = S.Recorder(inner, N)
                rb = job["rejbuf"] or None
                C = dfx.ClipStepSizeController
                ctl = {"none": lambda: C(inner, store_rejected_steps=rb),
                       "step": lambda: C(inner, step_ts=sts, store_rejected_steps=rb),
                       "jump": lambda: C(inner, jump_ts=jts, store_rejected_steps=rb),
                       "both": lambda: C(inner, step_ts=sts, jump_ts=jts, store_rejected_steps=rb),
                       "nested_sj": lambda: C(C(inner, step_ts=sts), jump_ts=jts, store_rejected_steps=rb),
                       "nested_js": lambda: C(C(inner, jump_ts=jts), step_ts=sts, store_rejected_steps=rb)}[kind]()
            ctl = S.Recorder(ctl, N)
            st = {} if states is None else dict(solver_state=states[0], controller_state=states[1], made_jump=states[2])
            sol = dfx.diffeqsolve(terms, solver, t0, t1, dt0, shape.pack(y0), dict(p=c["p"], jumps=jts, c=c["c"]), stepsize_controller=ctl,
                                  adjoint=adjoint, saveat=dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True),
                                  max_steps=ms, throw=False, **st)
            return sol.ts, sol.ys, (sol.solver_state, sol.controller_state, sol.made_jump), sol.result, sol.stats
        M = 5
        if job["resume"]:
            self.first = jax.jit(lambda *a: run(M, *a, None))
            self.second = jax.jit(lambda *a: run(N - M, *a))
        else:
            self.first = jax.jit(lambda *a: run(N, *a, None))

    def gen(self, rng, i):
        job, S, td = self.job, self.S, self.td
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        t0, t1 = float(td(t0)), float(td(t1))
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d))
        c.update(S.gen_schedule(rng, N, span))
        lo = span * (1e-2 if job["f32"] else 1e-7)
        c["dt"] = [max(x, lo) for x in c["dt"]]
        c["dt0"] = max(c["dt0"], lo)
        if rng.random() < 0.25: c["dt0"] = 2 * span
        if rng.random() < 0.3: c["dt"] = [span * (1 + x) for x in c["dt"]]     # only prescribed times bound the steps
        if job["rejbuf"] and rng.random() < 0.5:     # bursts of consecutive rejections around the capacity
            b = job["rejbuf"] + int(rng.integers(-1, 2))
            k, keep = int(rng.integers(0, 4)), []
            while len(keep) < N: keep += [True] * k + [False] * max(b, 0); k = int(rng.integers(1, 5))
            c["keep"] = keep[:N]
            for k in range(1, N):
                if not c["keep"][k - 1]: c["dt"][k] = max(c["dt"][k - 1] * 0.5, lo)
        sep = span * (1e-2 if job["f32"] else 1e-5)
        fl = lambda x: float(td(x))

        def draw(n, lo_, hi_, taken=()):
            out = []
            while len(out) < n:
                x = fl(t0 + d * span * rng.uniform(lo_, hi_))
                if all(abs(x - z) > sep for z in [t0, t1, *out, *taken]): out.append(x)
            return out
        style = rng.integers(4)
        jumps = draw(self.NJ, *((-0.2, 1.2) if style else (0.05, 0.95)))
        if self.NJ and rng.random() < 0.1 and t0 != 0 and not job["f32"]: 
            jumps[1] = float(np.nextafter(td(t0), td(t1)))      # t0 is just before a jump: a first step of length zero
            c["keep"][0] = True
        steps = draw(self.NS, -0.2, 1.2, jumps) if rng.random() < 0.7 else draw(self.NS, 0.3, 0.34 if not job["f32"] else 0.8, jumps)
        if self.NS:
            r = rng.random()
            if r < 0.1: steps[0] = t0
            elif r < 0.2: steps[0] = t1
            elif r < 0.3: steps[0] = steps[1]
            elif r < 0.4 and self.NJ: steps[0] = jumps[0]
            elif r < 0.5: steps[0] = fl(np.nextafter(td(steps[1]), td(rng.choice([-100, 100]))))
            elif r < 0.6 and self.NJ: steps[0] = fl(np.nextafter(td(jumps[0]), td(rng.choice([-100, 100]))))
        at = S.model_attempts(c, d * t0, d * t1)
        if self.NS and at and rng.random() < 0.4:    # a prescribed time exactly at the end of an attempt
            x = fl(d * at[int(rng.integers(len(at)))][1])
            if all(abs(x - z) > sep for z in [t0, t1, *jumps, *steps]): steps[-1] = c["placed"] = x
        c["step_ts"] = steps
        c["jump_ts"] = jumps
        if self.NJ == 0: c["jump_ts"] = [1e6]
        c["c"] = [float(x) for x in np.round(rng.normal(size=len(c["jump_ts"]) + 1) * 2, 2)]
        c["pid"] = [float(x) for x in [rng.choice([0, 0.3]), rng.choice([1.0, 0.4]), rng.choice([0, 0.1])]]
        c["amp"] = float(rng.choice([0.3, 0.6, 1.0, 2.5]))
        c["dt0b"] = float(span * rng.choice([0.03, 0.2, 1.5]))
        return c

    def execute(self, c):
        S, job, td = self.S, self.job, self.td
        d = 1 if c["t1"] > c["t0"] else -1
        A = lambda x: np.asarray(x, td)
        sc = S.schedule_arrays(c, N)
        sc = {k: (v.astype(td) if v.dtype == np.float64 else v) for k, v in sc.items()}
        b = dict(sc=sc, p=A(c["p"]), c=A(c["c"]), pid=A(c["pid"]), amp=A(c["amp"]),
                 step_ts=A(c["step_ts"]), jump_ts=A(c["jump_ts"]))
        o = sut(lambda: self.first(b, td(c["t0"]), td(c["t1"]), td(d * c["dt0"]), A(c["y0"])))
        cut = None
        if job["resume"] and S.result_name(o[3]) == "max_steps_reached":
            cut = int(o[4]["num_steps"])
            y = self.shape.flat(o[1])[0].astype(td)
            dt0 = min(c["dt0b"], abs(c["t1"] - float(o[0][0])) * 1.01 + 1e-9)
            o = sut(lambda: self.second(b, td(o[0][0]), td(c["t1"]), td(d * dt0), y, o[2]))
        ts, ys, (_, cs, _), result, stats = o
        log = S.read_log(cs[1])
        inner = None
        if job["inner"] != "metapid":
            x = cs[0]
            while hasattr(x, "inner_state"): x = x.inner_state
            inner = S.read_log(x[1])
        return dict(log=log, inner=inner, tf=float(ts[0]), yf=self.shape.flat(ys)[0], result=S.result_name(result), n=int(stats["num_steps"]), cut=cut)

    def check(self, c, o, st):
        job, td = self.job, self.td
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = td(d * c["t0"]), td(d * c["t1"])
        log, n, inner = o["log"], o["log"]["n"], o["inner"]
        kind = job["kind"]
        jumps = np.sort(td(d) * np.asarray(c["jump_ts"], td)) if self.NJ else np.zeros(0, td)
        steps = np.sort(td(d) * np.asarray(c["step_ts"], td)) if self.NS else np.zeros(0, td)
        before = lambda x: np.nextafter(td(x), td(-np.inf))
        after = lambda x: np.nextafter(td(x), td(np.inf))
        st.steps += n
        acc = [k for k in range(n) if log["keep"][k]]
        st.fault("rejected_attempt", n - len(acc))
        st.fault("resume", o["cut"] is not None)
        hist = f"(history {cm.pattern(log)}, step_ts {steps.tolist()}, jump_ts {jumps.tolist()})"
        T0, T1, TP, TN = (log[k].astype(td) for k in ("t0", "t1", "tprev", "tnext"))
        reached = d * td(o["tf"])
        st.sim_time += float(reached - s0)
        # ---- no attempt reaches into a jump
        for k in range(n):
            for j in jumps:
                if T0[k] == T1[k] and T0[k] == before(j): continue
                if T0[k] <= before(j) and T1[k] > before(j) and not (T0[k] == before(j)):
                    return V("across_jump", f"attempt {k} over [{T0[k]!r}, {T1[k]!r}] reaches the jump at {j!r} {hist}")
                if T0[k] == j or (T0[k] == before(j) and T1[k] >= j):
                    return V("across_jump", f"attempt {k} over [{T0[k]!r}, {T1[k]!r}] starts at the jump at {j!r} {hist}")
        # ---- tiling: consecutive attempts, exactly
        for k in range(n - 1):
            exp = T1[k] if log["keep"][k] else T0[k]
            js = [j for j in jumps if exp == before(j) or exp == j]
            if log["keep"][k] and js: exp = after(js[0])
            exp = min(exp, s1)
            if T0[k + 1] != exp:
                return V("tiling", f"attempt {k+1} starts at {T0[k+1]!r}, expected {exp!r} after {'accepted' if log['keep'][k] else 'rejected'} [{T0[k]!r}, {T1[k]!r}] {hist}")
            if T1[k + 1] > s1: return V("overrun", f"attempt {k+1} ends at {T1[k+1]!r} beyond {s1!r}")
        # ---- every prescribed time passed is the end of an accepted step
        ends = T1[acc]
        for x in steps:
            if not (s0 < x <= reached): continue
            near = [z for z in [*jumps, *steps, s0] if z != x and abs(z - x) <= 4 * np.spacing(abs(x))]
            slack = 4 * np.spacing(abs(x)) if near or x in jumps else 0
            # (an attempt that ends within rounding of x of its own accord counts as reaching it)
            if job["f32"] or td(d) * td(c.get("placed", 1e9)) == x: slack = max(slack, np.spacing(abs(x)))
            if not np.any(np.abs(ends - x) <= slack):
                return V("step_ts", f"step_ts {x!r} was passed without an accepted step ending there; ends {ends.tolist()} {hist}")
        for j in jumps:
            if not (s0 < j < reached) or s0 == before(j): continue
            if not np.any(ends == before(j)):
                return V("jump_ts", f"jump_ts {j!r} was passed without an accepted step ending at {before(j)!r}; ends {ends.tolist()} {hist}")
        # ---- the vector field used in each attempt is the one of that side of the jump, never a stale or poisoned one
        uj = np.sort(np.asarray(c["jump_ts"], td))
        tol = 2e-4 if job["f32"] else (1e-7 if self.imp else 1e-9)
        for k in range(n):
            if T0[k] == T1[k]: continue
            reach = T0[k] + self.cmax * (T1[k] - T0[k])        # (Kvaerno5 has a stage beyond the end of its step)
            if any(T1[k] < j <= reach for j in jumps): continue
            mid = d * 0.5 * (float(T0[k]) + float(T1[k]))
            r = np.float64(td(c["c"][int(np.sum(mid > uj))])) * (2 if self.base in ref.IMEX else 1)
            y1 = log["y0"][k] + d * r * (float(T1[k]) - float(T0[k]))
            if not ref.close(log["y1"][k], y1, tol):
                return V("vector_field", f"attempt {k} over [{T0[k]!r}, {T1[k]!r}] (made from {log['y0'][k]}) gave {log['y1'][k]}; with the vector field "
                         f"of that side of the jumps it is {y1} {hist}")
            y = log["y1"][k] if log["keep"][k] else log["y0"][k]
            if k + 1 < n and not ref.close(log["y0"][k + 1], y, 1e-6 if job["f32"] else 1e-12):
                return V("state", f"attempt {k+1} starts from {log['y0'][k+1]}, expected {y} {hist}")
        # ---- rejected times are revisited, or the documented error is reported
        pend, overflow = [], None
        word = []
        for k in range(n):
            if job["rejbuf"] and pend and T1[k] > pend[-1]:
                return V("revisit", f"attempt {k} over [{T0[k]!r}, {T1[k]!r}] passes the rejected time {pend[-1]!r} {hist}")
            if pend and T1[k] == pend[-1]: pend.pop()
            if not log["keep"][k]: pend.append(T1[k])
            if job["rejbuf"] and len(pend) > job["rejbuf"] and overflow is None: overflow = k
            if inner is None: word.append("?"); continue
            # ---- otherwise the inner controller's decision stands
            tp, tn, keep = inner["tprev"][k].astype(td), inner["tnext"][k].astype(td), bool(inner["keep"][k])
            if keep != bool(log["keep"][k]) or inner["t0"][k] != log["t0"][k] or inner["t1"][k] != log["t1"][k]:
                return V("inner", f"attempt {k}: the inner controller saw/decided differently {hist}")
            base = TP[k]
            bounds = [x for x in steps if x > base][:2] + [before(j) for j in jumps if before(j) > base][:1]
            if job["rejbuf"] and pend and overflow is None: bounds.append(pend[-1])
            b = min([tn, *bounds])
            w = "-" if b == tn else "c"
            word.append(w)
            jumped = base != (T1[k] if keep else T0[k])
            near = any(abs(x - base) <= 4 * np.spacing(abs(x)) for x in [*steps, *jumps])
            if near:      # a time within rounding of the present one may count as reached: the next ones still bind
                far = [x for x in bounds if x - base > 4 * np.spacing(abs(x))]
                if overflow is None and TN[k] > max(min([tn + 8 * np.spacing(max(abs(tn), abs(T0[k]), abs(base))), *far]), after(base)):
                    return V("proposal", f"after attempt {k} the step end {TN[k]!r} was proposed; expected at most {min([tn, *far])!r} {hist}")
            elif overflow is None and abs(TN[k] - (max(b, after(base)) if jumped else b)) > (0 if b != tn else 8 * np.spacing(max(abs(tn), abs(T0[k]), abs(base)))):
                # (8 ulp: the compiler may evaluate the inner controller's formula twice, rounded differently)
                return V("proposal", f"after attempt {k} ({'accepted' if keep else 'rejected'}, [{T0[k]!r}, {T1[k]!r}]) the next step was proposed to end at {TN[k]!r}; the inner "
                         f"controller proposed {tn!r}, the nearest prescribed or rejected time is {min(bounds) if bounds else None!r} {hist}")
        st.fault("clipped_step", word.count("c"))
        st.fault("jump_crossed", int(sum(1 for j in jumps if s0 < j < reached)))
        st.fault("rejection_buffer_overflow", overflow is not None)
        if overflow is not None:
            if o["result"] != "max_steps_rejected" or n != overflow + 1:
                return V("overflow", f"{overflow+1} attempts overflow the buffer of {job['rejbuf']} rejected times, but the solve made {n} attempts and reported {o['result']} {hist}")
        elif o["result"] == "max_steps_reached":
            if n < (N if not (job["resume"] and o["cut"] is None) else 0): return V("result", f"max_steps_reached after {n} attempts {hist}")
        elif o["result"] != "successful" or reached != s1:
            return V("result", f"the solve ended at {reached!r} of {s1!r} with {o['result']} {hist}")
        if n and not ref.close(o["yf"], log["y1"][acc[-1]] if acc else c["y0"], 1e-6):
            return V("final", f"final value {o['yf']} {hist}")
        if "c" in word or "?" in word:
            st.nontrivial.add(digest([job["name"], d, cm.pattern(log), "".join(word)]))
        return None

    def shrink(self, c):
        import copy
        yield from self.S.shrink_schedule(c)
        for k in ("step_ts", "jump_ts"):
            for i in range(len(c[k])):
                far = (c["t0"] - 5 - i) if c["t1"] > c["t0"] else (c["t0"] + 5 + i)
                if abs(c[k][i] - c["t0"]) < 4:
                    e = copy.deepcopy(c); e[k][i] = far; yield e
