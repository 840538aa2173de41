"""C11 Gradients do not depend on how the backward pass is scheduled.

A run is one solve under a seeded schedule with faults (rejections, poisoned rejected attempts, step
limit, failures, events), differentiated by several adjoints and numbers of checkpoints; all must
agree with each other and with a difference quotient of the solve itself under the same schedule."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, digest, rng_for, sut
from . import common as cm

N = 16
NT = 4

META = dict(
    rule="per job: method, output pattern, event kind and a set of adjoints/checkpoint numbers; per run: seeded schedule with faults, seeded loss over the outputs",
    measure="distinct (configuration, accept/reject word, stop kind) with a rejection or an early stop",
    real=["diffeqsolve", "RecursiveCheckpointAdjoint / DirectAdjoint / ForwardMode / BacksolveAdjoint / ImplicitAdjoint", "equinox checkpointed and bounded loops", "methods", "events and root finding", "PID controller ('pid' jobs)", "VirtualBrownianTree ('sde' jobs)"],
    stub=["step size controller (scripted) except in 'pid' jobs", "method wrapper injecting faults"],
    assumptions=["central differences with step 1e-6 of a fixed schedule are accurate to 1e-5 relative", "requested times do not coincide with step ends (the dense output has a kink there)"],
)

# kind, solver, save, event, adjoints
SPECS = [
    ("script", "Tsit5", "ts", "none", ["rec", "rec:3", "forward"]),
    ("script", "Euler", "steps", "none", ["rec:2", "rec:5", "direct", "forward"]),
    ("script", "Bosh3", "multi", "none", ["rec:2", "rec:16", "forward"]),
    ("script", "Dopri5", "dense", "none", ["rec:1", "rec:4", "forward"]),
    ("script", "Kvaerno3", "ts", "none", ["rec:2", "forward"]),
    ("script", "ImplicitEuler", "t1", "none", ["rec:3", "direct", "forward"]),
    ("script", "KenCarp3", "ts", "none", ["rec", "forward"]),
    ("script", "Sil3", "steps", "none", ["rec:2", "forward"]),
    ("script", "ReversibleHeun", "ts", "none", ["rec:1", "direct", "forward"]),
    ("script", "LeapfrogMidpoint", "ts", "none", ["rec", "rec:3", "forward"]),
    ("script", "SemiImplicitEuler", "steps", "none", ["rec:1", "direct", "forward"]),
    ("script", "Half:Heun", "ts", "none", ["rec:2", "direct", "forward"]),
    ("script", "Dopri8", "ts", "bool", ["rec:2", "rec:7", "forward"]),
    ("script", "Tsit5", "ts", "root", ["rec:2", "forward"]),
    ("script", "Heun", "multi", "root", ["rec:1", "direct", "forward"]),
    ("script", "Midpoint", "steps", "bool", ["rec", "direct", "forward"]),
    ("pid", "Tsit5", "ts", "none", ["rec:2", "direct", "forward"]),
    ("pid", "Bosh3", "steps", "none", ["rec:1", "rec:6", "forward"]),
    ("pid", "Kvaerno3", "ts", "none", ["rec:3", "forward"]),
    ("clip", "Dopri5", "ts", "none", ["rec", "forward"]),
    ("sde", "EulerHeun", "ts", "none", ["rec:2", "direct", "forward"]),
    ("sde", "SRA1", "steps", "none", ["rec:1", "rec:3", "forward"]),
    ("backsolve", "Tsit5", "ts", "none", ["rec", "backsolve"]),
    ("backsolve", "Dopri5", "t0ts", "none", ["rec", "backsolve"]),
    ("backsolve", "Tsit5", "t1", "none", ["rec", "backsolve"]),
    ("backsolve", "Tsit5", "t0t1", "none", ["rec", "backsolve"]),
    ("implicit", "Tsit5", "t1", "steady", ["implicit"]),
    ("vmap", "Tsit5", "ts", "none", ["rec:2", "forward"]),
    ("vmap", "Heun", "steps", "bool", ["rec", "forward"]),
    ("sqrt", "Tsit5", "ts", "none", ["rec", "direct", "forward"]),
]


def jobs(seed, tier):
    rng = rng_for(seed, "C11", "jobs")
    th = tier != "quick"
    specs = list(SPECS)
    if th:
        for _ in range(50):
            s = cm.ODE_METHODS[int(rng.integers(len(cm.ODE_METHODS)))]
            ev = ["none", "none", "bool", "root"][int(rng.integers(4))] if not s.startswith("Half:") else "none"
            adj = ["forward"] + [f"rec:{int(k)}" for k in rng.integers(1, N + 1, 2)] + ["rec", "direct"][:1 + int(rng.integers(2))]
            specs.append(("script", s, ["ts", "steps", "t1", "multi", "dense"][int(rng.integers(5 if not s.startswith("Half") else 4))], ev, list(dict.fromkeys(adj))))
    out = []
    for i, (kind, s, sv, ev, adj) in enumerate(specs):
        shape = "pair" if s == "SemiImplicitEuler" else "scalar" if kind in ("sde", "sqrt", "implicit") else ["vec3", "tree", "scalar"][int(rng.integers(3))] if not s.startswith("Half") and "multi" not in sv else "scalar"
        out.append(dict(name=f"{i:03d}-{kind}-{s}-{shape}-{sv}-{ev}-{'+'.join(a.replace(':', '') for a in adj)}", kind=kind, solver=s, save=sv, event=ev, adjoints=adj, shape=shape,
                        runs=(300 if th else 60) if kind != "backsolve" else (100 if th else 25), cost=(3.0 if s.split(":")[-1] in ref.IMPLICIT else 1.0) + 0.5 * len(adj)))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, optimistix as optx, diffrax as dfx
        from sim import system as S
        from jax.flatten_util import ravel_pytree
        self.job, self.S, self.jax = job, S, jax
        shape = self.shape = S.Shape(job["shape"])
        kind = job["kind"]
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        solver = getattr(dfx, job["solver"])() if kind == "sde" else S.make_solver(job["solver"])
        terms = None if kind == "sde" else S.make_terms(job["solver"], shape)
        M = self.M = {"pid": 64, "clip": 64, "sqrt": 64, "backsolve": 48, "implicit": 512}.get(kind, N)

        def solve(th, x, adj):
            """th: what is differentiated; x: the rest."""
            adjoint = S.make_adjoint(adj) if adj != "backsolve" else dfx.BacksolveAdjoint(stepsize_controller=dfx.PIDController(rtol=1e-8, atol=1e-9), max_steps=4096)
            t0, t1 = th.get("t0", x["t0"]), th.get("t1", x["t1"])
            d = jnp.where(x["t0"] < x["t1"], 1.0, -1.0)
            sc = dict(x["sc"], dt=th.get("dt", x["sc"]["dt"]))
            dt0, ts = th.get("dt0", x["dt0"]), th.get("ts", x["ts"])
            y0, sol, tm = shape.pack(th["y0"]), solver, terms
            args = dict(p=th["p"], te=x["te"], d=d)
            pid = dfx.PIDController(rtol=1e-3, atol=1e-4, pcoeff=0.2, icoeff=0.4)
            if kind == "pid": ctl = S.Recorder(pid, M)
            elif kind == "clip": ctl = S.Recorder(dfx.ClipStepSizeController(pid, jump_ts=x["cl"][:1], step_ts=x["cl"][1:]), M)
            elif kind == "sqrt":
                ctl = S.Recorder(dfx.PIDController(rtol=1e-4, atol=1e-4), M)
                tm = dfx.ODETerm(lambda t, y, a: -a["p"][0] * y * jnp.sqrt(y - 0.1))
            elif kind == "implicit":
                ctl = dfx.PIDController(rtol=1e-9, atol=1e-9)
            else:
                ctl = S.ScriptedController(**sc, with_jump=False, with_code=True)
                if kind not in ("backsolve", "sde"): sol = S.FaultySolver(solver, x["fl"]["at"], x["fl"]["start"], x["fl"]["kind"])
            if kind == "sde":
                lv = dfx.SpaceTimeLevyArea if job["solver"] == "SRA1" else dfx.BrownianIncrement
                bm = dfx.VirtualBrownianTree(jnp.minimum(x["t0"], x["t1"]), jnp.maximum(x["t0"], x["t1"]) + 1e-3, 2e-3, (), jr.key(x["seed"]), lv)
                diff = (lambda t, y, a: a["p"][1] * jnp.ones_like(y)) if job["solver"] == "SRA1" else (lambda t, y, a: a["p"][1] * jnp.sin(y))
                tm = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -a["p"][0] * y + jnp.cos(t)), dfx.ControlTerm(diff, bm))
                if not isinstance(sol, dfx.AbstractAdaptiveSolver): ctl = S.PlainScripted(ctl)
            if kind == "implicit":
                tm = dfx.ODETerm(lambda t, y, a: a["p"][0] - a["p"][1] * y - 0.5 * y ** 3)
            g = lambda t, y, args, **kw: args["d"] * (t - args["te"]) + 0.1 * jnp.tanh(jnp.sum(shape.unpack(y)))
            event = {"none": None, "bool": dfx.Event(lambda t, y, args, **kw: args["d"] * (t - args["te"]) >= 0), "root": dfx.Event(g, optx.Newton(1e-12, 1e-12)),
                     "steady": dfx.Event(dfx.steady_state_event(rtol=1e-7, atol=1e-7))}[job["event"]]
            extra = {} if adj in ("implicit", "backsolve") else dict(controller_state=True)
            sv = job["save"]
            if sv == "ts": saveat = dfx.SaveAt(ts=ts, t1=True, **extra)
            elif sv == "t0ts": saveat = dfx.SaveAt(ts=ts, t0=True, t1=True, **extra)
            elif sv == "steps": saveat = dfx.SaveAt(t0=True, t1=True, steps=True, **extra)
            elif sv == "t0t1": saveat = dfx.SaveAt(t0=True, t1=True, **extra)
            elif sv == "t1": saveat = dfx.SaveAt(t1=True, **extra)
            elif sv == "dense": saveat = dfx.SaveAt(dense=True, t1=True, **extra)
            else: saveat = dfx.SaveAt(subs={"a": dfx.SubSaveAt(ts=ts, fn=lambda t, y, a: jnp.sin(shape.unpack(y)) * a["p"][0] + t), "b": dfx.SubSaveAt(t1=True, steps=2)}, **extra)
            s = dfx.diffeqsolve(tm, sol, t0, t1 if kind != "implicit" else jnp.inf, d * dt0, y0, args, saveat=saveat, stepsize_controller=ctl, adjoint=adjoint,
                                max_steps=M, throw=False, event=event)
            outs = [s.ys, s.ts]
            if sv == "dense":
                q = x["t0"] + jnp.array([0.11, 0.37, 0.62]) * (x["t1"] - x["t0"])
                ev = lambda: jax.vmap(lambda t: shape.unpack(s.evaluate(t)))(q)
                # (a masked evaluation outside of the solution would be 0 * NaN)
                outs.append(jax.lax.cond(s.result == dfx.RESULTS.successful, ev, lambda: jax.tree_util.tree_map(lambda a: jnp.zeros(a.shape, a.dtype), jax.eval_shape(ev))))
            if adj == "backsolve" or kind == "backsolve": outs = [s.ys]
            v, _ = ravel_pytree(outs)
            w = jnp.resize(x["w"], v.shape)
            loss = jnp.sum(jnp.where(jnp.isfinite(v), w * jnp.where(jnp.isfinite(v), v, 0.0), 0.0))
            aux = dict(result=s.result._value, n=s.stats["num_steps"], log=(s.controller_state[1] if extra and kind != "implicit" else None))
            return loss, aux
        self.adjoints = job["adjoints"]
        self.grads = {}
        first = self.adjoints[0]
        for a in self.adjoints:
            if a == "forward":
                self.grads[a] = jax.jit(lambda th, v, x, eps, a=a: jax.jvp(lambda t: solve(t, x, a), (jax.tree_util.tree_map(lambda p, q: p + eps * q, th, v),), (v,), has_aux=True))
            elif kind == "vmap":
                def gv(ths, xs, a=a):
                    L = lambda ths: (lambda o: (jnp.sum(o[0]), o[1]))(jax.vmap(lambda th, x: solve(th, x, a))(ths, xs))
                    return jax.grad(L, has_aux=True)(ths)
                self.grads[a] = jax.jit(gv)
            else:
                self.grads[a] = jax.jit(lambda th, x, a=a: jax.grad(solve, has_aux=True)(th, x, a))
        # the solve itself, as a function of a displacement along one direction
        if "forward" in self.grads:
            def value(th, v, x, eps):
                (loss, tangent, aux) = self.grads["forward"](th, v, x, eps)
                return loss, aux, tangent
        else:
            vj = jax.jit(lambda th, v, x, eps: solve(jax.tree_util.tree_map(lambda a, b: a + eps * b, th, v), x, "implicit" if first == "implicit" else "direct"))
            value = lambda th, v, x, eps: (*vj(th, v, x, eps), None)
        self.value = value
        if kind in ("pid", "clip", "sqrt"):
            # the accepted steps of a recorded history, replayed
            def replay(th, x):
                job2 = dict(x, sc=x["replay"])
                nonlocal kind, M
                k0, m0 = kind, M
                try:
                    kind = "script" if k0 != "sqrt" else "sqrt_replay"
                    return solve(th, dict(job2, fl=S.no_faults(N)), "forward")[0]
                finally:
                    kind, M = k0, m0
            if kind == "sqrt":
                terms = dfx.ODETerm(lambda t, y, a: -a["p"][0] * y * jnp.sqrt(y - 0.1))
            self.replay = jax.jit(lambda th, v, x: jax.jvp(lambda t: replay(t, x), (th,), (v,))[1])
        self.ravel = ravel_pytree
        th = self._x(self.gen(rng_for("build"), 0)["lanes"][0])[0]
        self.is_time = np.asarray(ravel_pytree({k: np.full(np.shape(a), k not in ("y0", "p")) for k, a in th.items()})[0])
        self.event_code = int(dfx.RESULTS.event_occurred._value)
        self.execute(self.gen(rng_for("build"), 0))

    # ------------------------------------------------------------------ cases
    def _gen_one(self, rng):
        job, S = self.job, self.S
        kind = job["kind"]
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d))
        c.update(S.gen_schedule(rng, self.M if kind == "backsolve" else N, span))
        if kind == "sde": c["dt"] = [max(x, 0.01 * span) for x in c["dt"]]
        n = len(c["keep"])
        c["code"], c["faults"] = [0] * n, []
        k = int(rng.integers(N // 2))
        mode = str(rng.choice(["end", "end", "limit", "code", "fail", "poison", "poison", "poison"])) if kind in ("script", "vmap") else "end"
        if job["save"] == "dense" and mode in ("code", "fail", "limit"): mode = "end"   # (a masked evaluation outside of the solution is 0 * NaN)
        if mode == "limit": c["dt"] = [x * 0.2 for x in c["dt"]]
        if mode == "code": c["code"][k] = int(rng.integers(1, 4))
        if mode == "fail" and c["keep"][k]: c["faults"] = [[k, 1]]
        if mode == "poison": c["faults"] = [[j, int(rng.integers(3, 6) if self.imp else rng.integers(2, 7))] for j in range(N) if not c["keep"][j] and rng.random() < 0.7]
        c["mode"] = mode
        c["te"] = float(t0 + d * span * (rng.uniform(0.1, 0.97) if rng.random() < 0.8 else 9.0))
        c["tss"] = sorted((float(t0 + (t1 - t0) * u) for u in rng.uniform(0.02, 0.98, NT)), reverse=d < 0)
        c["cl"] = sorted(float(t0 + d * span * u) for u in rng.uniform(0.05, 1.5, 3))
        c["w"] = [float(x) for x in np.round(rng.normal(size=7), 3)]
        c["seed"] = int(rng.integers(2 ** 31))
        c["v"] = int(rng.integers(2 ** 31))
        if kind == "sqrt":
            c["y0"], c["p"][0] = [float(rng.uniform(0.5, 2))], float(rng.uniform(0.5, 1.5))
            c["dt0"] = float(rng.choice([0.1, 1.0, 50.0, 400.0]) * span)
        if kind == "implicit": c["p"][0] = float(rng.uniform(-2, 2)); c["t0"], c["t1"] = 0.0, 1.0; c["dt0"] = 0.1
        return c

    def gen(self, rng, i):
        return dict(lanes=[self._gen_one(rng) for _ in range(3 if self.job["kind"] == "vmap" else 1)])

    def _x(self, c):
        S = self.S
        d = 1 if c["t1"] > c["t0"] else -1
        if self.job["kind"] == "backsolve":   # (steps must be small for the two to be close)
            span = abs(c["t1"] - c["t0"])
            c = dict(c, dt=[min(max(h, 0.03 * span), 0.06 * span) for h in c["dt"]], dt0=0.05 * span)
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, d * c["t0"], d * c["t1"])
        for k, kd in c["faults"]:
            # (faults are attached to attempts by their times: never disturb an accepted attempt, other than to fail)
            if k < len(at) and (kd == 1 or not any(c["keep"][j] and max(abs(at[j][0] - at[k][0]), abs(at[j][1] - at[k][1])) < 3e-9 for j in range(len(at)))): fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kd
        f = lambda x: np.asarray(x, float)
        n = self.M if self.job["kind"] == "backsolve" else N
        x = dict(t0=f(c["t0"]), t1=f(c["t1"]), dt0=f(c["dt0"]), te=f(c["te"]), ts=f(c["tss"]), cl=f(c["cl"]), w=f(c["w"]), seed=np.asarray(c["seed"], np.uint32), sc=S.schedule_arrays(c, n), fl=fl)
        th = dict(y0=f(c["y0"]), p=f(c["p"]))
        rng = np.random.default_rng(c["v"])
        v = {k: rng.normal(size=a.shape) for k, a in th.items()}
        v["p"][3] = 0.0
        if self.job["kind"] in ("script", "vmap"):
            th.update(t0=x["t0"], t1=x["t1"], dt=x["sc"]["dt"], dt0=x["dt0"], ts=x["ts"])
            span = abs(c["t1"] - c["t0"])
            v.update(t0=np.asarray(0.3 * span * rng.normal()), t1=np.asarray(0.3 * span * rng.normal()), dt=0.3 * rng.normal(size=n) * x["sc"]["dt"], dt0=0.3 * rng.normal() * x["dt0"], ts=0.0 * x["ts"])
            v["dt0"] = np.asarray(v["dt0"])
            v["ts"] = 0.1 * span * rng.normal(size=NT)
            if c["faults"]:   # (faults are attached to attempts by their times)
                for k in ("t0", "t1", "dt", "dt0"): v[k] = 0.0 * v[k]
        return th, v, x

    def execute(self, case):
        jax, job, kind = self.jax, self.job, self.job["kind"]
        lanes = [self._x(c) for c in case["lanes"]]
        th, v, x = lanes[0]
        o = dict(grads={}, fwd={}, lanes=[])
        eps = 1e-6
        for (t, w, y) in lanes:
            a, b, c = sut(lambda: [self.value(t, w, y, np.asarray(e)) for e in (0.0, eps, -eps)])
            if a[2] is not None: o["fwd"].setdefault("forward", []).append(float(a[2]))
            o["lanes"].append(dict(loss=[float(z[0]) for z in (a, b, c)], n=[int(z[1]["n"]) for z in (a, b, c)], result=[int(z[1]["result"]) for z in (a, b, c)],
                                   log=self.S.read_log(a[1]["log"]) if a[1]["log"] is not None else None,
                                   keeps=[np.asarray(z[1]["log"].keep)[:int(z[1]["log"].n)] for z in (a, b, c)] if a[1]["log"] is not None else None))
        for a in self.adjoints:
            if a == "forward": continue
            elif kind == "vmap":
                st = lambda k: jax.tree_util.tree_map(lambda *z: np.stack(z), *[l[k] for l in lanes])
                g, aux = sut(lambda: self.grads[a](st(0), st(2)))
                o["grads"][a] = [np.asarray(self.ravel(jax.tree_util.tree_map(lambda z: z[i], g))[0]) for i in range(len(lanes))]
            else:
                g, aux = sut(lambda: self.grads[a](th, x))
                o["grads"][a] = [np.asarray(self.ravel(g)[0])]
        o["v"] = [np.asarray(self.ravel(w)[0]) for (t, w, y) in lanes]
        if kind in ("pid", "clip", "sqrt"):
            log = o["lanes"][0]["log"]
            d = 1 if case["lanes"][0]["t1"] > case["lanes"][0]["t0"] else -1
            acc = [k for k in range(log["n"]) if log["keep"][k]]
            h = np.zeros(self.M)
            for i, k in enumerate(acc): h[i] = log["t1"][k] - log["t0"][k]
            sc = dict(keep=np.ones(self.M, bool), dt=np.concatenate([h[1:], [1.0]]), code=np.zeros(self.M, np.int32), jump=np.zeros(self.M, bool), gap=np.zeros(self.M))
            if acc: sc["dt"][len(acc) - 1:] = 10.0
            y = dict(x, replay=sc, dt0=np.asarray(h[0] if acc else 1.0))
            o["replay"] = float(sut(lambda: self.replay(th, v, y)))
        if kind == "implicit":
            o["state"] = None
        return o

    def check(self, case, o, st):
        job, kind = self.job, self.job["kind"]
        for b, (c, l) in enumerate(zip(case["lanes"], o["lanes"])):
            word = cm.pattern(l["log"]) if l["log"] else str(l["n"][0])
            st.steps += l["n"][0]
            st.sim_time += abs(c["t1"] - c["t0"])
            st.fault("rejected_attempt", word.count("r"))
            st.fault("poisoned_rejected_attempt", sum(1 for k, _ in c["faults"] if k < len(word) and word[k] == "r") if kind in ("script", "vmap") else 0)
            if l["result"][0]: st.fault("stops_early")
            if "r" in word or l["result"][0]: st.nontrivial.add(digest([job["name"], word, l["result"][0]]))
            scale = 1 + max([np.max(np.abs(np.where(np.isfinite(g[b]), g[b], 0))) for g in o["grads"].values()] + [abs(f[b]) for f in o["fwd"].values() if np.isfinite(f[b])] + [abs(l["loss"][0])])
            hist = f"(attempts {word!r}, result {l['result'][0]}, mode {c['mode']}, interval [{c['t0']}, {c['t1']}])"
            # (the rest of the batch goes on; what a lane that failed with a NaN would have done next is masked: 0 * NaN)
            if kind == "vmap" and l["result"][0] and any(k == 1 for _, k in c["faults"]): st.probe("failed_lanes"); continue
            # ---- finite
            for a, g in o["grads"].items():
                if not np.all(np.isfinite(g[b])): 
                    times = self.is_time
                    return V("nan_time_gradient" if kind == "vmap" and np.all(np.isfinite(g[b][~times])) else "nan_gradient", f"adjoint {a}: gradient {g[b].tolist()} {hist}")
            for a, f in o["fwd"].items():
                if not np.isfinite(f[b]): return V("nan_tangent", f"adjoint {a}: tangent {f[b]} {hist}")
            tol = 1e-6 if self.imp or job["event"] == "root" else 1e-8
            ref_g = None
            for a, g in o["grads"].items():
                if a == "backsolve": continue
                if ref_g is None: ref_g, ref_a = g[b], a; continue
                if np.max(np.abs(g[b] - ref_g)) > tol * scale:
                    i = int(np.argmax(np.abs(g[b] - ref_g)))
                    return V("adjoints", f"component {i} of the gradient is {g[b][i]!r} with adjoint {a}, {ref_g[i]!r} with {ref_a} {hist}")
            for a, f in o["fwd"].items():
                if ref_g is not None and abs(f[b] - ref_g @ o["v"][b]) > tol * scale * (1 + np.sum(np.abs(o["v"][b]))):
                    return V("modes", f"directional derivative {f[b]!r} in forward mode, {ref_g @ o['v'][b]!r} in reverse mode ({ref_a}) {hist}")
            if ref_g is None: ref_g = o["grads"][self.adjoints[0]][b]
            if "backsolve" in o["grads"]:
                g = o["grads"]["backsolve"][b]
                if np.max(np.abs(g - ref_g)) > 2e-3 * scale:
                    return V("backsolve", f"BacksolveAdjoint gives {g.tolist()}, discretise-then-optimise gives {ref_g.tolist()} {hist}")
            if kind in ("pid", "clip", "sqrt"):
                if l["result"][0] == 0 and abs(o["replay"] - ref_g @ o["v"][b]) > max(tol, 1e-7) * scale * (1 + np.sum(np.abs(o["v"][b]))):
                    return V("accepted", f"directional derivative is {ref_g @ o['v'][b]!r}, that of the sequence of accepted steps is {o['replay']!r} {hist}")
                continue
            if kind == "implicit":
                # y* solves p0 - p1 y - y^3 / 2 = 0
                p0, p1 = c["p"][0], c["p"][1]
                r = np.roots([-0.5, 0, -p1, p0]); ys = float(r[np.argmin(np.abs(r.imag))].real)
                dp0 = 1 / (p1 + 1.5 * ys ** 2)
                want = np.array([dp0, -ys * dp0]) * c["w"][0]
                got = ref_g
                gp = got[:4]   # (flattened in the order of the keys "p", "y0")
                if l["result"][0] == self.event_code and np.max(np.abs(gp[:2] - want)) > 1e-5 * scale: return V("implicit", f"ImplicitAdjoint gives d loss/d(p0, p1) = {gp[:2].tolist()}, the implicit function theorem gives {want.tolist()} {hist}")
                continue
            # ---- difference quotient of the solve itself, unless the perturbation changed its course
            same = len(set(l["n"])) == 1 and len(set(l["result"])) == 1 and (l["keeps"] is None or all(np.array_equal(k, l["keeps"][0]) for k in l["keeps"]))
            fd = (l["loss"][1] - l["loss"][2]) / 2e-6
            second = (l["loss"][1] - 2 * l["loss"][0] + l["loss"][2]) / 1e-6
            if not same or abs(second) > 1e-3 * scale:
                st.probe("kinks")
                continue
            lim = (2e-3 if self.imp else 2e-5) * scale * (1 + np.max(np.abs(o["v"][b])))
            if abs(fd - ref_g @ o["v"][b]) > lim:
                return V("difference", f"directional derivative {ref_g @ o['v'][b]!r}, difference quotient of the solve itself {fd!r} {hist}")
        return None

    def shrink(self, case):
        import copy
        for i in range(len(case["lanes"])):
            for s in self.S.shrink_schedule(case["lanes"][i]):
                d = copy.deepcopy(case); d["lanes"][i] = s; yield d
            w = case["lanes"][i]["w"]
            for k in range(len(w)):
                if w[k]:
                    d = copy.deepcopy(case); d["lanes"][i]["w"][k] = 0.0; yield d


def known(job, case, v):
    """Recorded in KNOWN_FINDINGS.md."""
    if job["kind"] == "vmap" and v["tag"] == "nan_time_gradient" and any(k in (2, 6) and not c["keep"][j] for c in case["lanes"] for j, k in c["faults"] if j < len(c["keep"])):
        return "in a batch, reverse-mode gradients with respect to times are NaN if a rejected attempt produced a NaN"
    if job["kind"] == "sqrt" and v["tag"] == "nan_gradient" and ("adjoint rec" in v["msg"] or "adjoint direct" in v["msg"]):
        return "reverse-mode gradients are NaN if a rejected attempt evaluated the vector field at a point where it is NaN (sqrt vector field, oversized dt0)"
    return None
