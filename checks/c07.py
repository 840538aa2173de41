"""C07: batched solves do not influence each other."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one batch of seeded solves (lane = schedule, interval, direction, faults, event times, values) executed with vmap and "
         "each lane again on its own; non-trivial = the lanes differ in how they end or in the number of attempts; distinct by "
         "(configuration, sorted lane outcomes, lane accept/reject words)",
    measure="distinct (configuration, outcome and accept/reject word of every lane)",
    real=["diffeqsolve loop under vmap", "saving", "dense output", "events and root finding", "controllers", "methods and root finders", "Brownian paths", "adjoint loop kinds"],
    stub=["step size controller (scripted jobs)", "method wrapper injecting failures"],
    assumptions=["rounding may differ between a batched and an unbatched operation (1e-9 relative)"],
)
N, B, NT = 14, 5, 4
SPECS = [  # solver, controller, event, root, save, adjoint, axes
    ("Tsit5", "script", "none", None, "ts", "rec", "all"), ("Dopri5", "script", "real", "newton", "steps", "rec", "all"),
    ("Heun", "script", "bool", None, "dense", "rec", "all"), ("Euler", "script", "real", "bisect", "ts", "rec", "all"),
    ("Kvaerno3", "script", "none", None, "ts", "rec", "all"), ("KenCarp3", "script", "two", "newton", "steps", "rec", "all"),
    ("ReversibleHeun", "script", "none", None, "dense", "direct", "all"), ("LeapfrogMidpoint", "script", "bool", "newton", "ts", "rec:2", "all"),
    ("Bosh3", "script", "two", "newton", "dense", "forward", "all"), ("Tsit5", "pid", "none", None, "steps", "rec", "all"),
    ("Dopri8", "pid", "real", "newton", "dense", "rec", "all"), ("Kvaerno5", "pid", "none", None, "ts", "rec", "all"),
    ("Tsit5", "clip", "bool", None, "ts", "rec", "all"), ("Heun", "clip_store", "none", None, "steps", "rec", "all"),
    ("Euler", "const", "real", None, "steps", "rec", "all"), ("Ralston", "stepto", "none", None, "dense", "rec", "all"),
    ("Tsit5", "script", "real", "newton", "ts", "rec", "y"), ("Heun", "script", "bool", None, "steps", "direct", "sched"),
    ("Dopri5", "script", "two", None, "dense", "rec", "time"), ("Tsit5", "pid", "none", None, "ts", "implicit", "y"),
    ("Midpoint", "script", "none", None, "multi", "rec", "nested"), ("Half:Heun", "pid", "none", None, "ts", "rec", "all"),
    ("SemiImplicitEuler", "script", "real", None, "multi", "rec", "all"), ("Sil3", "pid", "bool", None, "steps", "rec", "all"),
    ("EulerHeun", "sde", "none", None, "ts", "rec", "all"), ("ShARK", "sde", "bool", None, "steps", "direct", "all"), ("SPaRK", "sde", "none", None, "ts", "rec", "all"),
    ("QUICSORT", "lang", "none", None, "steps", "rec", "all"), ("ALIGN", "lang", "bool", None, "ts", "rec", "all"), ("ShOULD", "lang", "none", None, "t1", "direct", "y"),
    ("ImplicitEuler", "pid_dtmin", "none", None, "t1", "rec", "all"), ("Tsit5", "script", "none", None, "t1", "backsolve", "all"),
]


def jobs(seed, tier):
    rng = rng_for(seed, "C07", "jobs")
    th = tier != "quick"
    out = []
    specs = list(SPECS)
    if th:
        for _ in range(60):
            s = cm.ODE_METHODS[int(rng.integers(len(cm.ODE_METHODS)))]
            ctl = ["script", "script", "pid", "clip", "const"][int(rng.integers(5))]
            if s.split(":")[-1] in ("Euler", "SemiImplicitEuler", "LeapfrogMidpoint") and not s.startswith("Half") and ctl in ("pid", "clip"): ctl = "script"
            ev, rf = [("none", None), ("real", "newton"), ("bool", None), ("two", "newton"), ("real", None)][int(rng.integers(5))]
            if s.startswith("Half"): rf = None
            specs.append((s, ctl, ev, rf, ["ts", "steps", "dense", "multi", "t1"][int(rng.integers(5))], ["rec", "direct", "rec:3", "forward"][int(rng.integers(4))],
                          ["all", "all", "y", "sched", "time", "nested"][int(rng.integers(6))] if ctl == "script" else "all"))
    for i, (s, c, e, r, sv, adj, ax) in enumerate(specs):
        out.append(dict(name=f"{i:03d}-{s}-{c}-{e}-{r}-{sv}-{adj}-{ax}", solver=s, ctl=c, event=e, root=r, save=sv, adjoint=adj, axes=ax,
                        runs=400 if th else 100, cost=3.0 if s in ref.IMPLICIT else 1.5))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, optimistix as optx, diffrax as dfx
        from sim import system as S
        self.job, self.S, self.jax = job, S, jax
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        ctl_kind = job["ctl"]
        lang = ctl_kind == "lang"
        sde = ctl_kind.startswith("sde") or lang
        shape = self.shape = S.Shape("pair" if job["solver"] == "SemiImplicitEuler" else "scalar" if sde else "tree")
        base = (getattr(dfx, job["solver"])() if sde else S.make_solver(job["solver"]))
        terms = None if sde else S.make_terms(job["solver"], shape)
        adjoint = S.make_adjoint(job["adjoint"])
        M = N if ctl_kind in ("script", "lang") else 60
        self.M = M

        def solve(x):
            d = jnp.where(x["t0"] < x["t1"], 1.0, -1.0)
            tol = dict(rtol=x["rtol"], atol=x["rtol"])
            inner = lambda: dfx.PIDController(**tol)   # (no memory: error estimates of tiny steps are rounding noise)
            if ctl_kind == "script": ctl = S.ScriptedController(**x["sc"], with_jump=True, with_code=True)
            elif lang: ctl = S.PlainScripted(S.ScriptedController(**x["sc"], with_jump=True, with_code=True))
            elif ctl_kind in ("pid", "sde_pid"): ctl = dfx.PIDController(**tol, dtmin=1e-3 if sde else None)
            elif ctl_kind == "pid_dtmin": ctl = dfx.PIDController(**tol, dtmin=x["dtmin"], force_dtmin=False)
            elif ctl_kind == "clip": ctl = dfx.ClipStepSizeController(inner(), step_ts=x["cl"], jump_ts=x["jp"])
            elif ctl_kind == "clip_store": ctl = dfx.ClipStepSizeController(inner(), jump_ts=x["jp"], store_rejected_steps=40)
            elif ctl_kind == "stepto": ctl = dfx.StepTo(ts=x["st"])
            else: ctl = dfx.ConstantStepSize()
            if sde:
                lv = {"EulerHeun": dfx.BrownianIncrement, "ALIGN": dfx.SpaceTimeLevyArea, "ShARK": dfx.SpaceTimeLevyArea, "SPaRK": dfx.SpaceTimeLevyArea}.get(job["solver"], dfx.SpaceTimeTimeLevyArea)
                bm = dfx.VirtualBrownianTree(jnp.minimum(x["t0"], x["t1"]), jnp.maximum(x["t0"], x["t1"]) + 1e-3, 2e-3, (), jr.key(x["seed"]), lv)
                diff = (lambda t, y, a: a["p"][0] * jnp.ones_like(y)) if job["solver"] == "ShARK" else (lambda t, y, a: 0.3 * jnp.sin(y) + a["p"][1])
                tm = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -a["p"][0] * y + jnp.cos(t)), dfx.ControlTerm(diff, bm))
                y0, sol = x["y0"][0], base
                if lang:
                    ga, u = 10.0 * x["p"][1] * x["p"][2], jnp.asarray(1.0)
                    tm = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(ga, u, lambda y, a: y + jnp.sin(y) * a["p"][0]), dfx.UnderdampedLangevinDiffusionTerm(ga, u, bm))
                    y0 = (y0, 0.5 * y0)
            else:
                tm, y0 = terms, shape.pack(x["y0"])
                sol = S.FaultySolver(base, x["fl"]["at"], x["fl"]["start"], x["fl"]["kind"]) if ctl_kind == "script" else base
            g = lambda t, y, args, **kw: args["d"] * (t - args["te"])
            h = lambda t, y, args, **kw: jnp.sum(jax.tree_util.tree_leaves(y)[0]) > args["lv"]
            rf = {None: None, "newton": optx.Newton(1e-10, 1e-10), "bisect": optx.Bisection(1e-10, 1e-10)}[job["root"]]
            event = {"none": None, "bool": dfx.Event(lambda *a, **k: g(*a, **k) >= 0, rf), "real": dfx.Event(g, rf),
                     "two": dfx.Event({"a": h, "b": g}, rf)}[job["event"]]
            sv = job["save"]
            extra = {} if job["adjoint"] in ("implicit", "backsolve") else dict(controller_state=True, solver_state=True, made_jump=True)
            if sv == "ts": saveat = dfx.SaveAt(t0=True, ts=x["ts"], **extra)
            elif sv == "steps": saveat = dfx.SaveAt(t0=True, t1=True, steps=True, **extra)
            elif sv == "dense": saveat = dfx.SaveAt(dense=True, t1=True, **extra)
            elif sv == "t1": saveat = dfx.SaveAt(t1=True, **extra)
            else: saveat = dfx.SaveAt(subs={"a": dfx.SubSaveAt(ts=x["ts"], fn=lambda t, y, a: (t, jax.tree_util.tree_leaves(y)[0])),
                                            "b": dfx.SubSaveAt(t1=True, steps=2), "c": dfx.SubSaveAt(t0=True)}, **extra)
            if job["adjoint"] == "implicit": saveat = dfx.SaveAt(t1=True)
            s = dfx.diffeqsolve(tm, sol, x["t0"], x["t1"], None if ctl_kind == "stepto" else d * x["dt0"], y0, dict(p=x["p"], te=x["te"], d=d, lv=x["lv"]), saveat=saveat,
                                stepsize_controller=ctl, adjoint=adjoint, max_steps=M, throw=False, event=event)
            out = dict(t0=s.t0, t1=s.t1, ts=s.ts, ys=s.ys, result=s.result._value, stats=s.stats, mask=s.event_mask,
                       state=jax.tree_util.tree_map(lambda z: jnp.asarray(z), (s.solver_state, s.controller_state, s.made_jump)))
            if sv == "dense":
                q = jnp.where(jnp.isfinite(s.ts[-1]), s.ts[-1], x["t0"])
                r = jnp.linspace(0, 1, 7)
                out["dense"] = jax.vmap(lambda u: s.evaluate(x["t0"] + u * (q - x["t0"])))(r)
                out["derivative"] = s.derivative(x["t0"] + 0.37 * (q - x["t0"]))
            return out
        self.solo = jax.jit(solve)
        ax = job["axes"]
        tmpl = self._lane(self.gen(rng_for("build"), 0)["lanes"][0])
        groups = {"y": {"y0", "p"}, "sched": {"sc", "fl"}, "time": {"t0", "t1", "ts", "te"}}
        if ax in groups:
            self.batched = groups[ax] | ({"fl"} if ax == "time" else set())
            axes = ({k: (jax.tree_util.tree_map(lambda _: 0, v) if k in self.batched else jax.tree_util.tree_map(lambda _: None, v, is_leaf=lambda z: not isinstance(z, dict)))
                     for k, v in tmpl.items()},)
            self.vm = jax.jit(jax.vmap(solve, in_axes=axes))
        elif ax == "nested":
            self.batched = set(tmpl)
            self.vm = jax.jit(jax.vmap(jax.vmap(solve)))
        else:
            self.batched = set(tmpl)
            self.vm = jax.jit(jax.vmap(solve))
        self.B = 4 if ax == "nested" else B
        self.execute(self.gen(rng_for("build"), 0))

    # ---------------------------------------------------------------- lanes
    def _gen_lane(self, rng):
        S, job = self.S, self.job
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        if rng.random() < 0.12: t1 = t0
        span = abs(t1 - t0) or 1.0
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d))
        c.update(S.gen_schedule(rng, N, span))
        c["code"], c["jump"], c["gap"] = [0] * N, [False] * N, [0.0] * N
        c["faults"] = []
        kind = str(rng.choice(["plain", "plain", "limit", "code", "fail", "poison", "jump", "nan0"]))
        k = int(rng.integers(N // 2))
        if job["ctl"] == "lang":     # (Levy areas over tiny steps are rounding noise)
            c["dt"] = [max(x, 0.01 * span) for x in c["dt"]]
        elif kind == "limit": c["dt"] = [x * 0.05 for x in c["dt"]]
        if kind == "code": c["code"][k] = int(rng.integers(1, 4))
        if kind == "fail": c["faults"] = [[k, 1]]
        if kind == "poison" and not (self.imp and c["keep"][k]): c["faults"] = [[k, int(rng.integers(2, 7))]]
        if kind == "jump": c["jump"] = [bool(x) for x in rng.random(N) < 0.4]; c["gap"] = [1e-9] * N
        if kind == "nan0" and not self.imp: c["y0"] = [float("nan")] * len(c["y0"])
        c["kind"] = kind
        c["te"] = float(t0 + d * span * (rng.uniform(0.02, 0.97) if rng.random() < 0.5 else 5.0))
        c["lv"] = float(c["y0"][0] + abs(rng.normal()) * span) if rng.random() < 0.5 else 1e3
        if rng.random() < 0.05: c["lv"] = -1e3
        c["tss"] = sorted((float(t0 + (t1 - t0) * u) for u in np.round(rng.random(NT), 3)), reverse=d < 0)
        c["cl"] = sorted(float(t0 + d * span * u) for u in np.round(rng.uniform(0.05, 1.5, 3), 3))
        c["jp"] = sorted(float(t0 + d * span * u) for u in np.round(rng.uniform(0.05, 1.5, 2), 3))
        u = np.sort(rng.random(4))
        c["st"] = [float(x) for x in [t0, *(t0 + (t1 - t0) * u), t1]]
        c["rtol"] = float(10 ** rng.uniform(-4, -1.5))
        c["dtmin"] = float(10 ** rng.uniform(-3, -1))
        c["seed"] = int(rng.integers(2 ** 31))
        if job["ctl"] == "stepto" and (t0 == t1 or len(set(c["st"])) < 6):
            c["t1"] = t1 = t0 + d * span
            c["st"] = [float(x) for x in t0 + d * span * np.array([0, 0.1, 0.3, 0.35, 0.8, 1])]
            c["st"][-1] = t1
        return c

    def gen(self, rng, i):
        lanes = [self._gen_lane(rng) for _ in range(B if self.job["axes"] != "nested" else 4)]
        ax = self.job["axes"]
        if ax in ("y", "sched", "time"):
            base = lanes[0]
            keys = {"y": ("y0", "p", "kind"), "sched": ("keep", "dt", "code", "jump", "gap", "faults", "kind"), "time": ("t0", "t1", "tss", "te")}[ax]
            if ax != "time":
                nd = 1 if base["t1"] >= base["t0"] else -1
                lanes = [base] + [dict(base, **{k: l[k] for k in keys}) for l in lanes[1:]]
            else:
                lanes = [base] + [dict(base, **{k: l[k] for k in keys}) for l in lanes[1:]]
        return dict(lanes=lanes)

    def _lane(self, c):
        S = self.S
        d = 1 if c["t0"] < c["t1"] else -1
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, d * c["t0"], d * c["t1"])
        for k, kind in c["faults"]:
            if k < len(at):
                fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        f = lambda x: np.asarray(x, float)
        return dict(t0=f(c["t0"]), t1=f(c["t1"]), dt0=f(c["dt0"]), y0=f(c["y0"]), p=f(c["p"]), te=f(c["te"]), lv=f(c["lv"]), ts=f(c["tss"]), cl=f(c["cl"]), jp=f(c["jp"]),
                    st=f(c["st"]), rtol=f(c["rtol"]), dtmin=f(c["dtmin"]), seed=np.asarray(c["seed"], np.uint32), sc=S.schedule_arrays(c, N), fl=fl)

    def execute(self, c):
        jax = self.jax
        lanes = [self._lane(l) for l in c["lanes"]]
        st = {}
        for k in lanes[0]:
            if k in self.batched:
                st[k] = jax.tree_util.tree_map(lambda *z: np.stack(z), *[l[k] for l in lanes])
                if self.job["axes"] == "nested":
                    st[k] = jax.tree_util.tree_map(lambda z: z.reshape(2, 2, *z.shape[1:]), st[k])
            else:
                st[k] = lanes[0][k]
        out = sut(lambda: self.vm(st))
        flat, td = jax.tree_util.tree_flatten_with_path(out)
        names = [jax.tree_util.keystr(p) for p, _ in flat]
        batch = [np.asarray(v) for _, v in flat]
        if self.job["axes"] == "nested":
            batch = [v.reshape(4, *v.shape[2:]) for v in batch]
        solo = []
        for l in lanes:
            o = sut(lambda: self.solo(l))
            solo.append([np.asarray(v) for v in jax.tree_util.tree_leaves(o)])
        return dict(names=names, batch=batch, solo=solo)

    def check(self, c, o, st):
        job = self.job
        names = o["names"]
        ir, iN = names.index("['result']"), names.index("['stats']['num_steps']")
        outcomes = []
        for b, (lane, solo) in enumerate(zip(c["lanes"], o["solo"])):
            outcomes.append((int(solo[ir]), int(solo[iN]), "".join("ar"[not k] for k in lane["keep"])[:int(solo[iN])] if job["ctl"] in ("script", "lang") else ""))
            st.steps += int(solo[iN])
            st.sim_time += abs(lane["t1"] - lane["t0"])
            st.fault("lane_" + lane["kind"])
            if lane["t0"] == lane["t1"]: st.fault("lane_empty_interval")
            if int(solo[ir]): st.fault("lane_stops_early")
        if len(set(outcomes)) > 1:
            st.nontrivial.add(digest([job["name"], outcomes]))
        for b, (lane, solo) in enumerate(zip(c["lanes"], o["solo"])):
            for name, x, y in zip(names, o["batch"], solo):
                x = x[b]
                if x.shape != y.shape or x.dtype != y.dtype:
                    return V("structure", f"{name}: batched {x.dtype}{x.shape}, alone {y.dtype}{y.shape}")
                if np.issubdtype(y.dtype, np.inexact):
                    ok = np.array_equal(np.isnan(x), np.isnan(y)) and np.all((x == y) | np.isnan(y) | (np.abs(x - y) <= self._tol(name, y)))
                else:
                    ok = np.array_equal(x, y)
                if not ok:
                    return V("lane", f"element {b} of the batch (outcomes (result, attempts, word) {outcomes}, intervals {[(l['t0'], l['t1']) for l in c['lanes']]}): "
                             f"{name} is {x.tolist()} in the batch and {y.tolist()} alone")
        return None

    def _tol(self, name, y):
        """Allowed difference.  Adaptive controllers amplify rounding (their state holds inverse errors)."""
        with np.errstate(all="ignore"):
            y = 1 + np.where(np.isfinite(y), np.abs(y), 0.0)
        if self.job["ctl"] in ("script", "const", "stepto", "sde", "lang"):
            return (1e-7 if self.imp else 1e-9) * y
        return 1e-5 * y * (y if "state" in name else 1.0)

    def shrink(self, c):
        import copy
        n = len(c["lanes"])
        # make the lanes that do not matter copies of another one
        for i in range(n):
            for j in range(n):
                if i != j and c["lanes"][i] != c["lanes"][j] and sum(c["lanes"][i] == l for l in c["lanes"]) == 1:
                    d = copy.deepcopy(c); d["lanes"][i] = copy.deepcopy(d["lanes"][j]); yield d
        for i in range(n):
            if c["lanes"][i]["faults"]:
                d = copy.deepcopy(c); d["lanes"][i]["faults"] = []; yield d
