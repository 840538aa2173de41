"""C12: solving backwards in time mirrors solving forwards.

The same compiled program solves a problem forwards (sg = +1) and its time reversal backwards
(sg = -1: interval [-t0, -t1], vector fields s.t. y'(t) = y(-t), noise X'(t) = X(-t), prescribed times
negated).  Negation is exact in floating point, so everything observable must be mirrored exactly."""
from __future__ import annotations
import numpy as np
from sim import ref, sde
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one pair of solves: a seeded problem, schedule, faults and prescribed times forwards, and its time reversal backwards; "
         "non-trivial = a rejected attempt, a jump or an early stop; distinct by (configuration, accept/reject word, result)",
    measure="distinct (configuration, accept/reject word, result, attempts)",
    real=["diffeqsolve: normalisation of times, loop, saving, dense output", "WrapTerm", "events and root finding", "PID / clip / StepTo / constant controllers",
          "all methods", "VirtualBrownianTree and Levy areas", "resuming from saved states"],
    stub=["step size controller (scripted jobs)", "method wrapper injecting faults", "time-reversed view of the driving path"],
    assumptions=["time reversal maps the increment W to -W, the space-time Levy area H to H and the space-time-time Levy area K to -K",
                 "Langevin methods are mirrored by (v, gamma, u, grad f) -> -(v, gamma, u, grad f), up to rounding"],
)
N, NT = 14, 4
CTL = ("script", "pid", "clip", "clip_store", "const", "stepto", "pid_dtmin")
SPECS = [  # kind, solver, controller, event, root, save, mode
    ("ode", "Tsit5", "script", "none", None, "ts", "single"), ("ode", "Dopri5", "clip", "real", "newton", "dense", "single"),
    ("ode", "Dopri8", "clip_store", "none", None, "steps", "single"), ("ode", "Bosh3", "pid", "two", "newton", "multi", "single"),
    ("ode", "Euler", "const", "bool", None, "steps", "single"), ("ode", "Heun", "stepto", "real", None, "dense", "single"),
    ("ode", "Midpoint", "clip", "up", "newton", "ts", "single"), ("ode", "Ralston", "pid", "steady", None, "steps", "single"),
    ("ode", "Kvaerno3", "script", "real", "newton", "dense", "single"), ("ode", "Kvaerno5", "clip", "none", None, "ts", "single"),
    ("ode", "KenCarp4", "script", "kw", None, "multi", "single"), ("ode", "Sil3", "clip", "bool", "newton", "steps", "single"),
    ("ode", "ImplicitEuler", "script", "two", None, "ts", "single"), ("ode", "SemiImplicitEuler", "script", "real", None, "dense", "single"),
    ("ode", "ReversibleHeun", "clip", "none", None, "dense", "single"), ("ode", "LeapfrogMidpoint", "script", "up", None, "steps", "single"),
    ("ode", "Half:Tsit5", "clip", "none", None, "ts", "single"), ("ode", "Tsit5", "script", "kw", "newton", "ts", "vmap"),
    ("ode", "Heun", "clip", "bool", None, "dense", "vmap"), ("ode", "Dopri5", "script", "none", None, "multi", "resume"),
    ("ode", "Tsit5", "clip_store", "none", None, "steps", "resume"), ("ode", "Bosh3", "pid_dtmin", "none", None, "t1", "single"),
    ("ctrl", "Tsit5", "script", "none", None, "ts", "single"), ("ctrl", "Heun", "clip", "real", None, "dense", "single"),
    ("ctrlode", "Dopri5", "clip", "none", None, "steps", "single"),
    ("sde", "EulerHeun", "script", "none", None, "ts", "single"), ("sde", "Euler", "script", "bool", None, "steps", "single"),
    ("sde", "StratonovichMilstein", "script", "real", None, "ts", "single"),
    ("sde", "SPaRK", "clip", "none", None, "steps", "single"), ("sde", "SlowRK", "script", "none", None, "ts", "single"),
    ("sde", "GeneralShARK", "script", "bool", None, "steps", "single"), ("sde", "SRA1", "clip", "none", None, "ts", "single"),
    ("sde", "ShARK", "script", "none", None, "dense", "single"), ("sde", "SEA", "script", "none", None, "steps", "resume"),
    ("sde", "ReversibleHeun", "script", "none", None, "ts", "single"), ("sde", "Half:Heun", "script", "none", None, "steps", "single"),
    ("lang", "ALIGN", "script", "none", None, "steps", "single"), ("lang", "ShOULD", "script", "none", None, "ts", "single"),
    ("lang", "QUICSORT", "script", "none", None, "steps", "single"),
]


def jobs(seed, tier):
    rng = rng_for(seed, "C12", "jobs")
    th = tier != "quick"
    specs = list(SPECS)
    if th:
        for _ in range(70):
            kind = ["ode", "ode", "ode", "sde"][int(rng.integers(4))]
            pool = cm.ODE_METHODS if kind == "ode" else [m for m in sde.ALL if m not in sde.LANGEVIN and m != "ItoMilstein"]   # (Ito SDEs are not symmetric under time reversal)
            s = pool[int(rng.integers(len(pool)))]
            adaptive = kind == "ode" and (s.startswith("Half") or s not in ("Euler", "SemiImplicitEuler", "LeapfrogMidpoint"))
            c = CTL[int(rng.integers(len(CTL)))] if adaptive else "script"
            ev, rf = [("none", None), ("real", "newton"), ("bool", None), ("two", "newton"), ("up", None), ("kw", None), ("none", None)][int(rng.integers(7))]
            if s.startswith("Half") or kind == "sde": rf = None
            mode = "single" if ev != "none" or c in ("stepto",) else ["single", "single", "vmap", "resume"][int(rng.integers(4))]
            sv = ["ts", "steps", "dense", "multi", "t1"][int(rng.integers(4 if mode != "resume" else 2))] if mode != "resume" else ["ts", "steps"][int(rng.integers(2))]
            specs.append((kind, s, c, ev, rf, sv, mode))
    out = []
    for i, (k, s, c, e, r, sv, m) in enumerate(specs):
        if k == "sde":
            lay = ("addtree" if rng.random() < 0.5 else "add") if s in sde.ADDITIVE else ["vec", "tree", "diag"][int(rng.integers(2 if s.startswith("Half") else 3))]
            levy = sde.LEVY.get(s) or [None, "H", "K"][int(rng.integers(3))]
        else: lay, levy = ("lang", "K" if s != "ALIGN" else "H") if k == "lang" else (None, None)
        shape = "pair" if s == "SemiImplicitEuler" else ["scalar", "vec3", "tree"][int(rng.integers(2 if k.startswith("ctrl") else 3))]
        out.append(dict(name=f"{i:03d}-{k}-{s}-{c}-{e}-{r}-{sv}-{m}-{lay or shape}", kind=k, solver=s, ctl=c, event=e, root=r, save=sv, mode=m, layout=lay, levy=levy, shape=shape,
                        runs=400 if th else 70, cost=3.0 if s.split(":")[-1] in ref.IMPLICIT else 1.5))
    return out


def make_mirror():
    import jax.numpy as jnp, equinox as eqx, diffrax as dfx
    from jax.tree_util import tree_map

    class Mirror(dfx.AbstractBrownianPath):
        """X'(t) = flip * X(sg * t) of a Brownian path X."""
        path: dfx.VirtualBrownianTree
        sg: object
        flip: object
        levy_area: type = eqx.field(static=True)

        @property
        def t0(self): return jnp.where(self.sg > 0, self.path.t0, -self.path.t1)
        @property
        def t1(self): return jnp.where(self.sg > 0, self.path.t1, -self.path.t0)

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            assert t1 is not None
            a, b = jnp.where(self.sg > 0, t0, -t1), jnp.where(self.sg > 0, t1, -t0)
            v = self.path.evaluate(a, b, left, True)
            mul = lambda c, z: tree_map(lambda x: c * x, z)
            v = eqx.tree_at(lambda v: v.W, v, mul(self.sg * self.flip, v.W))
            if hasattr(v, "H"): v = eqx.tree_at(lambda v: v.H, v, mul(self.flip, v.H))
            if hasattr(v, "K"): v = eqx.tree_at(lambda v: v.K, v, mul(self.sg * self.flip, v.K))
            return v if use_levy else v.W
    return Mirror


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, optimistix as optx, diffrax as dfx
        from sim import system as S
        self.job, self.S, self.jax = job, S, jax
        kind, ctl_kind, sv = job["kind"], job["ctl"], job["save"]
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        stoch = kind in ("sde", "lang")
        L = self.L = sde.Layout(job["layout"]) if stoch else None
        shape = self.shape = S.Shape(job["shape"])
        self.d = L.d if stoch else shape.d
        base = sde.make_solver(job["solver"]) if stoch else S.make_solver(job["solver"])
        adaptive = isinstance(base, (dfx.AbstractAdaptiveSolver, dfx.HalfSolver)) and not (kind == "sde" and job["solver"] in ("Euler",))
        Mirror = make_mirror()
        M = self.M = N if ctl_kind == "script" else 60
        tm_ = jax.tree_util.tree_map
        flatten = (lambda y: jnp.concatenate([jnp.ravel(z) for z in jax.tree_util.tree_leaves(y)]))

        def terms_of(x, sg):
            P = lambda a: a["p"]
            if kind == "ode":
                b = job["solver"].split(":")[-1]
                if b == "SemiImplicitEuler":
                    return (dfx.ODETerm(lambda t, y, a: sg * ref.vf_a(sg * t, y, P(a), jnp)), dfx.ODETerm(lambda t, y, a: sg * ref.vf_b(sg * t, y, P(a), jnp)))
                if b in ref.IMEX:
                    return dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: tm_(lambda z: sg * z, shape.pack(ref.vf_ex(sg * t, shape.unpack(y), P(a), jnp)))),
                                         dfx.ODETerm(lambda t, y, a: tm_(lambda z: sg * z, shape.pack(ref.vf_im(sg * t, shape.unpack(y), P(a), jnp)))))
                return dfx.ODETerm(lambda t, y, a: tm_(lambda z: sg * z, shape.pack(ref.vf(sg * t, shape.unpack(y), P(a), jnp))))
            if kind in ("ctrl", "ctrlode"):
                kt, kv = x["kt"], x["kv"]
                ts = jnp.where(sg > 0, kt, -kt[::-1])
                path = dfx.LinearInterpolation(ts, jnp.where(sg > 0, kv, kv[::-1]))
                t = dfx.ControlTerm(lambda t, y, a: tm_(lambda z: z[..., None] * jnp.array([1.0, 0.4]), shape.pack(ref.vf(sg * t, shape.unpack(y), P(a), jnp))), path)
                return t.to_ode() if kind == "ctrlode" else t
            vbt = dfx.VirtualBrownianTree(x["lo"], x["hi"], x["tol"], sde.noise_shape(L), jr.wrap_key_data(x["key"]), sde.levy_cls(job["levy"]))
            path = Mirror(vbt, sg, sg if kind == "lang" else 1.0 + 0 * sg, sde.levy_cls(job["levy"]))
            if kind == "lang":
                gam, u = sg * jnp.stack([x["q"], 2 * x["q"]]), sg * jnp.asarray([1.0, 0.6])
                return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(gam, u, lambda y, a: sg * sde.grad_f(y, P(a), jnp)), dfx.UnderdampedLangevinDiffusionTerm(gam, u, path))
            ref_terms = sde.make_terms(job["solver"], L, path, x["q"])
            drift, diff = ref_terms.terms
            return dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: tm_(lambda z: sg * z, drift.vf(sg * t, y, a))), dfx.ControlTerm(lambda t, y, a: diff.vector_field(sg * t, y, a), path))

        def mirror_y(y, sg):
            return (y[0], tm_(lambda z: jnp.where(jnp.isfinite(z), sg * z, z), y[1])) if kind == "lang" else y

        def solve(x, sg):
            tol = dict(rtol=x["rtol"], atol=x["rtol"])
            pid = lambda **k: dfx.PIDController(**tol, pcoeff=0.2, icoeff=0.5, **k)
            if stoch and ctl_kind != "script": pid = lambda **k: dfx.PIDController(**tol, dtmin=1e-3, **k)
            def sort(z): return jnp.where(sg > 0, z, -z[::-1])      # (increasing in user's time, in either direction)
            if ctl_kind == "script":
                ctl = S.ScriptedController(**x["sc"], with_jump=True, with_code=True)
                if not adaptive: ctl = S.PlainScripted(ctl)
            elif ctl_kind == "pid": ctl = pid()
            elif ctl_kind == "pid_dtmin": ctl = pid(dtmin=x["dtmin"], dtmax=4 * x["dtmin"], force_dtmin=False)
            elif ctl_kind == "clip": ctl = dfx.ClipStepSizeController(pid(), step_ts=sort(x["cl"]), jump_ts=sort(x["jp"]))
            elif ctl_kind == "clip_store": ctl = dfx.ClipStepSizeController(pid(), jump_ts=sort(x["jp"]), store_rejected_steps=60)
            elif ctl_kind == "stepto": ctl = dfx.StepTo(ts=sg * x["st"])
            else: ctl = dfx.ConstantStepSize()
            if ctl_kind != "script": ctl = S.Recorder(ctl, M)
            fl = x["fl"]
            sol = S.FaultySolver(base, fl["at"], fl["start"], fl["kind"]) if ctl_kind == "script" else base
            g = lambda t, y, args, **kw: sg * t - args["te"]
            gy = lambda t, y, args, **kw: flatten(mirror_y(y, sg))[0] - args["lv"]
            h = lambda t, y, args, **kw: gy(t, y, args) > 0
            kw_ = lambda t, y, args, **kw: (sg * (t - kw["t0"]) > 0.6 * sg * (kw["t1"] - kw["t0"])) & (sg * kw["dt0"] > 0)
            rf = {None: None, "newton": optx.Newton(1e-10, 1e-10)}[job["root"]]
            event = {"none": lambda: None, "bool": lambda: dfx.Event(lambda *a, **k: g(*a, **k) >= 0, rf), "real": lambda: dfx.Event(gy, rf), "kw": lambda: dfx.Event(kw_, rf),
                     "up": lambda: dfx.Event({"a": gy, "b": lambda t, y, a, **k: jnp.sin(5 * (sg * t)) + 0.1 * gy(t, y, a)}, rf, direction={"a": True, "b": False}),
                     "two": lambda: dfx.Event({"a": h, "b": g}, rf), "steady": lambda: dfx.Event(dfx.steady_state_event(rtol=x["rtol"] * 30, atol=0.3))}[job["event"]]()
            extra = dict(controller_state=True, solver_state=True, made_jump=True)
            fn = lambda t, y, a: (sg * t, flatten(mirror_y(y, sg)) * a["p"][0])
            if sv == "ts": saveat = dfx.SaveAt(t0=True, ts=sg * x["ts"], **extra)
            elif sv == "steps": saveat = dfx.SaveAt(t0=True, t1=True, steps=True, fn=fn, **extra)
            elif sv == "dense": saveat = dfx.SaveAt(dense=True, t1=True, **extra)
            elif sv == "t1": saveat = dfx.SaveAt(t1=True, **extra)
            else: saveat = dfx.SaveAt(subs={"a": dfx.SubSaveAt(ts=sg * x["ts"], fn=fn), "b": dfx.SubSaveAt(t1=True, steps=2, fn=fn), "c": dfx.SubSaveAt(t0=True, fn=fn)}, **extra)
            y0 = mirror_y(sde.pack(L, x["y0"]) if stoch else shape.pack(x["y0"]), sg)
            args = dict(p=x["p"], te=x["te"], lv=x["lv"])
            terms = terms_of(x, sg)
            def run(t0, t1, y0, sa, **st):
                return dfx.diffeqsolve(terms, sol, t0, t1, None if ctl_kind == "stepto" else sg * x["dt0"], y0, args, saveat=sa, stepsize_controller=ctl,
                                       max_steps=M, throw=False, event=event, adjoint=dfx.ForwardMode() if stoch else dfx.DirectAdjoint() if job["mode"] == "vmap" else dfx.RecursiveCheckpointAdjoint(), **st)
            un = lambda t: jnp.where(jnp.isfinite(t), sg * t, t)
            def pack_out(s, saved_fn):
                o = dict(t0=un(s.t0), t1=un(s.t1), ts=tm_(un, s.ts), result=s.result._value, stats=s.stats, mask=s.event_mask, jump=s.made_jump,
                         ys=s.ys if saved_fn or s.ys is None else jax.vmap(lambda y: flatten(mirror_y(y, sg)))(s.ys))
                cs = s.controller_state
                log = cs[1]
                o["log"] = log
                return o
            saved_fn = sv in ("steps", "multi")
            out = {}
            if job["mode"] == "resume":
                s = run(sg * x["t0"], sg * x["tm"], y0, dfx.SaveAt(t1=True, **extra))
                out["first"] = pack_out(s, False)
                ym = tm_(lambda z: z[-1], s.ys)
                s = run(sg * x["tm"], sg * x["t1"], ym, saveat, solver_state=s.solver_state, controller_state=s.controller_state, made_jump=s.made_jump)
            else:
                s = run(sg * x["t0"], sg * x["t1"], y0, saveat)
            out.update(pack_out(s, saved_fn))
            if sv == "dense":
                it = s.interpolation
                out["it0"], out["it1"] = un(it.t0), un(it.t1)
                f = lambda y: flatten(mirror_y(y, sg))
                q = jnp.concatenate([x["q7"], x["t0"] + x["q01"] * (x["t1"] - x["t0"]), jnp.stack([x["t0"], x["t1"]])])
                both = lambda t: (f(s.evaluate(t, left=True)), f(s.evaluate(t, left=False)), f(s.derivative(t, left=True)), f(s.derivative(t, left=False)))
                a, b, c, e = jax.vmap(both)(sg * q)
                out["left"], out["right"] = jnp.where(sg > 0, a, b), jnp.where(sg > 0, b, a)
                sgv = sg
                if kind == "lang": sgv = sg
                out["dleft"], out["dright"] = jnp.where(sg > 0, c, -e), jnp.where(sg > 0, e, -c)
                acc = jnp.where(jnp.isfinite(out["log"].t1), out["log"].t1, 0.0)   # (normalised time: the sign of the direction of the solve)
                knots = acc * jnp.where(x["t0"] < x["t1"], 1.0, -1.0)              # ... in the user's time of the forward problem
                ka, kb, kc, ke = jax.vmap(both)(sg * knots[:8])
                out["kleft"], out["kright"] = jnp.where(sg > 0, ka, kb), jnp.where(sg > 0, kb, ka)
                out["inc"] = f(s.evaluate(sg * q[0], sg * q[1]))
            return out
        if job["mode"] == "vmap":
            both = jax.jit(lambda x: jax.vmap(solve, in_axes=(None, 0))(x, jnp.array([1.0, -1.0])))
            def pair(x):
                o = both(x)
                return [jax.tree_util.tree_map(lambda z: z[i], o) for i in (0, 1)]
            self.pair = pair
        else:
            one = jax.jit(solve)
            self.pair = lambda x: [one(x, np.asarray(1.0)), one(x, np.asarray(-1.0))]
        self.execute(self.gen(rng_for("build"), 0))

    # ---------------------------------------------------------------- cases
    def gen(self, rng, i):
        S, job = self.S, self.job
        stoch = job["kind"] in ("sde", "lang")
        t0, t1, d = cm.gen_interval(rng, direction=1 if rng.random() < 0.8 else -1, scale=0.25 if self.imp else 1.0)
        if job["mode"] != "resume" and job["ctl"] != "stepto" and rng.random() < 0.04: t1 = t0
        span = abs(t1 - t0) or 1.0
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.d), q=float(np.round(0.3 + rng.random(), 3)))
        c.update(S.gen_schedule(rng, N, span))
        c["code"], c["jump"], c["gap"], c["faults"] = [0] * N, [False] * N, [0.0] * N, []
        kind = str(rng.choice(["plain", "plain", "limit", "code", "fail", "poison", "jump"]))
        k = int(rng.integers(N // 2))
        if stoch: c["dt"] = [max(x, 0.01 * span) for x in c["dt"]]
        elif kind == "limit": c["dt"] = [x * 0.05 for x in c["dt"]]
        if kind == "code": c["code"][k] = int(rng.integers(1, 4))
        if kind == "fail": c["faults"] = [[k, 1]]
        if kind == "poison" and not (self.imp and c["keep"][k]): c["faults"] = [[k, int(rng.integers(2, 7))]]
        if kind == "jump": c["jump"] = [bool(x) for x in rng.random(N) < 0.4]; c["gap"] = [1e-9 if rng.random() < 0.5 else 0.02 * span] * N
        c["kind"] = kind
        c["te"] = float(t0 + d * span * (rng.uniform(0.02, 0.97) if rng.random() < 0.6 else 5.0))
        c["lv"] = float(c["y0"][0] + rng.normal() * span * 0.5)
        c["tss"] = sorted((float(t0 + (t1 - t0) * u) for u in np.round(rng.random(NT), 3)), reverse=d < 0)
        c["cl"] = sorted(float(t0 + d * span * u) for u in np.round(rng.uniform(-0.1, 1.5, 3), 3))
        c["jp"] = sorted(float(t0 + d * span * u) for u in np.round(rng.uniform(0.05, 1.5, 2), 3))
        u = np.sort(rng.random(4))
        c["st"] = [float(x) for x in [t0, *(t0 + (t1 - t0) * u), t1]]
        c["tm"] = float(t0 + (t1 - t0) * np.round(rng.uniform(0.1, 0.9), 3))
        c["q7"] = [float(t0 + (t1 - t0) * u) for u in rng.uniform(-0.05, 1.05, 5)]
        c["q01"] = [float(u) for u in rng.uniform(0, 1, 2)]
        c["rtol"] = float(10 ** rng.uniform(-5, -1.5))
        c["dtmin"] = float(10 ** rng.uniform(-3, -0.5))
        kt = rng.uniform(-0.2, 1.2, 4)   # (generic: the control has one-sided derivatives there)
        c["kt"] = sorted(float(t0 + d * span * u) for u in [-0.5, *kt, 1.6])
        c["kv"] = np.round(rng.normal(size=(6, 2)), 3).tolist()
        c["lo"], c["hi"] = min(t0, t1) - 0.1 * span, max(t0, t1) + 0.3 * span
        c["tol"] = span * float(2.0 ** -rng.integers(6, 12))
        c["key"] = [int(x) for x in rng.integers(0, 2 ** 32, 2)]
        return c

    def execute(self, c):
        S = self.S
        d = 1 if c["t0"] < c["t1"] else -1
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, d * c["t0"], d * c["t1"])
        for k, kind in c["faults"]:
            if k < len(at): fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        f = lambda z: np.asarray(z, float)
        x = {k: f(c[k]) for k in ("t0", "t1", "dt0", "y0", "p", "q", "te", "lv", "cl", "jp", "st", "tm", "q7", "q01", "rtol", "dtmin", "kt", "kv", "lo", "hi", "tol")}
        x.update(ts=f(c["tss"]), key=np.asarray(c["key"], np.uint32), sc=S.schedule_arrays(c, N), fl=fl)
        if self.job["mode"] == "resume": x["ts"] = np.clip(x["ts"], min(c["tm"], c["t1"]), max(c["tm"], c["t1"]))
        if c["t1"] < c["t0"]: x["dt0"] = -x["dt0"]
        fwd, bwd = sut(lambda: self.pair(x))
        fl_, _ = self.jax.tree_util.tree_flatten_with_path(fwd)
        return dict(names=[self.jax.tree_util.keystr(p) for p, _ in fl_], fwd=[np.asarray(v) for _, v in fl_], bwd=[np.asarray(v) for v in self.jax.tree_util.tree_leaves(bwd)])

    def check(self, c, o, st):
        job, names = self.job, o["names"]
        res, n = int(o["fwd"][names.index("['result']")]), int(o["fwd"][names.index("['stats']['num_steps']")])
        keep = o["fwd"][names.index("['log'].keep")]
        word = "".join("a" if k else "r" for k in keep[:n])
        st.steps += 2 * n
        st.sim_time += 2 * abs(c["t1"] - c["t0"])
        st.fault("rejected_attempt", word.count("r"))
        st.fault("case_" + c["kind"])
        if res: st.fault("stops_early")
        if "r" in word or res or c["kind"] == "jump" or job["ctl"].startswith("clip"):
            st.nontrivial.add(digest([job["name"], word, res, n]))
        exact = job["kind"] == "ode" and job["mode"] != "vmap" and not self.imp
        for name, a, b in zip(names, o["fwd"], o["bwd"]):
            if np.issubdtype(a.dtype, np.inexact):
                with np.errstate(all="ignore"):
                    eps = (1e-12 if exact else 1e-7 if self.imp or job["kind"] == "lang" else 1e-10) * (1 + np.where(np.isfinite(a), np.abs(a), 0.0))
                    if job["kind"] == "lang": a, b = (np.abs(a), np.abs(b)) if ".y" in name or ".err" in name else (a, b)
                    ok = np.array_equal(np.isnan(a), np.isnan(b)) and np.all((a == b) | np.isnan(a) | (np.abs(a - b) <= eps))
            else:
                ok = np.array_equal(a, b)
            if not ok:
                return V("mirror", f"{name}: forwards {a.tolist()}, backwards (mirrored) {b.tolist()} (attempts forwards {word!r}, result {res}, interval [{c['t0']}, {c['t1']}])")
        return None

    def shrink(self, c):
        yield from self.S.shrink_schedule(c)
