"""C02: requested outputs are saved exactly once, in order, with the right value."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one solve under a seeded schedule with a seeded set of requested output times and a seeded stopping "
         "point (end, step limit, controller error, method failure, event); non-trivial = a rejection or an early stop or "
         "a requested time on a step boundary; distinct by (configuration, accept/reject word, stop kind, alignment word)",
    measure="distinct (SaveAt structure, accept/reject word, stop kind, position of requested times relative to steps)",
    real=["diffeqsolve loop", "SaveAt/SubSaveAt", "local interpolation", "events and root finding", "methods", "adjoint loop kinds"],
    stub=["step size controller (scripted scheduler)", "method wrapper injecting failures"],
    assumptions=["dense-output polynomials of the pinned commit are the right ones (frozen table)"],
)
N = 16
METHODS = ["Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ReversibleHeun", "LeapfrogMidpoint",
           "SemiImplicitEuler", "Kvaerno3", "Kvaerno5", "KenCarp4", "ImplicitEuler", "Sil3", "Kvaerno4", "KenCarp3", "KenCarp5"]


def gen_sub(rng):
    while True:
        s = dict(t0=bool(rng.random() < 0.4), t1=bool(rng.random() < 0.5), ts=int(rng.choice([0, 0, 1, 4, 9])),
                 steps=int(rng.choice([0, 0, 1, 1, 2, 3])), fn=["y", "stat"][int(rng.random() < 0.4)])
        if s["t0"] or s["t1"] or s["ts"] or s["steps"]:
            return s


FIXED = [  # structures that must always be present
    [dict(t0=True, t1=True, ts=9, steps=0, fn="y")],
    [dict(t0=True, t1=True, ts=0, steps=1, fn="stat")],
    [dict(t0=False, t1=True, ts=0, steps=2, fn="y")],
    [dict(t0=True, t1=True, ts=4, steps=3, fn="y"), dict(t0=False, t1=False, ts=9, steps=0, fn="stat")],
    [dict(t0=False, t1=False, ts=4, steps=1, fn="y"), dict(t0=False, t1=True, ts=0, steps=0, fn="y"),
     dict(t0=True, t1=False, ts=0, steps=0, fn="stat")],
    [dict(t0=False, t1=False, ts=9, steps=0, fn="y")],
    [dict(t0=False, t1=False, ts=0, steps=3, fn="y"), dict(t0=True, t1=False, ts=0, steps=1, fn="y")],
]


def jobs(seed, tier):
    rng = rng_for(seed, "C02", "jobs")
    out = []
    nj = 26 if tier == "quick" else 120
    perm = [METHODS[i] for i in rng.permutation(len(METHODS))]
    for i in range(nj):
        subs = FIXED[i] if i < len(FIXED) else [gen_sub(rng) for _ in range(int(rng.integers(1, 4)))]
        s = perm[i % len(perm)] if i >= 6 else ["Tsit5", "Euler", "Dopri5", "Bosh3", "Heun", "Dopri8"][i]
        ev = ["none", "none", "bool", "real", "root"][i % 5]
        adj = ["rec", "direct", "rec:2", "forward"][int(rng.integers(4))]
        shape = "pair" if s == "SemiImplicitEuler" else ["vec3", "tree", "scalar"][int(rng.integers(3))]
        out.append(dict(name=f"{i:03d}-{s}-{shape}-{ev}-{adj}-" + "+".join(
            f"{'0' * x['t0']}{'1' * x['t1']}t{x['ts']}s{x['steps']}{x['fn'][0]}" for x in subs),
            subs=subs, solver=s, event=ev, adjoint=adj, shape=shape, container=["list", "single", "dict"][int(rng.integers(3))],
            runs=250 if tier == "quick" else 1000, cost=3.0 if s in ref.IMPLICIT else 1.0 + len(subs) / 3))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, optimistix as optx, diffrax as dfx
        from sim import system as S
        self.job, self.S = job, S
        shape = self.shape = S.Shape(job["shape"])
        self.imp = job["solver"] in ref.IMPLICIT
        solver = S.make_solver(job["solver"])
        terms = S.make_terms(job["solver"], shape)
        adjoint = S.make_adjoint(job["adjoint"])
        subs = job["subs"]

        def stat(t, y, args):
            v = shape.unpack(y)
            return dict(a=jnp.sum(v) * (1 + t) * args["p"][0], b=(v[0] + t,))

        def solve(sc, fl, t0, t1, dt0, y0, p, te, tss):
            d = jnp.where(t0 < t1, 1.0, -1.0)
            ctl = S.ScriptedController(**sc, with_jump=False, with_code=True)
            sol = S.FaultySolver(solver, fl["at"], fl["start"], fl["kind"])
            sl = [dfx.SubSaveAt(t0=s["t0"], t1=s["t1"], ts=tss[i] if s["ts"] else None, steps=s["steps"],
                                **(dict(fn=stat) if s["fn"] == "stat" else {})) for i, s in enumerate(subs)]
            if job["container"] == "single" and len(sl) == 1:
                tree, get = sl[0], (lambda x: [x])
            elif job["container"] == "dict":
                tree, get = {f"k{i}": x for i, x in enumerate(sl)}, (lambda x: [x[f"k{i}"] for i in range(len(sl))])
            else:
                tree, get = sl, (lambda x: x)
            g = lambda t, y, args, **kw: args["d"] * (t - args["te"])
            event = {"none": None, "bool": dfx.Event(lambda t, y, args, **kw: g(t, y, args) >= 0),
                     "real": dfx.Event(g), "root": dfx.Event(g, optx.Newton(1e-11, 1e-11))}[job["event"]]
            s = dfx.diffeqsolve(terms, sol, t0, t1, dt0, shape.pack(y0), dict(p=p, te=te, d=d),
                                saveat=dfx.SaveAt(subs=tree, controller_state=True), stepsize_controller=ctl,
                                adjoint=adjoint, max_steps=N, throw=False, event=event)
            return get(s.ts), get(s.ys), s.controller_state[1], s.result, s.t0, s.t1
        self.fn = jax.jit(solve)
        self.execute(self.gen(rng_for("build"), 0))

    def gen(self, rng, i):
        job, S = self.job, self.S
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        if rng.random() < 0.05:
            t1 = t0
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d))
        c.update(S.gen_schedule(rng, N, span or 1.0))
        if rng.random() < 0.2:
            c["dt"] = [x * 0.3 for x in c["dt"]]
        mode = rng.choice(["end", "end", "code", "fail"])
        k = int(rng.integers(0, N))
        c["code"] = [0] * N
        if mode == "code":
            c["code"][k] = int(rng.integers(1, 4))
        c["faults"] = [[k, 1]] if mode == "fail" and c["keep"][k] else []
        te = None
        if job["event"] != "none" and span and rng.random() < 0.8:
            te = t0 + d * span * float(rng.uniform(-0.1, 0.97))
        c["te"] = te if te is not None else t0 + d * (span + 5.0)
        s0, s1 = d * t0, d * t1
        at = S.model_attempts(c, s0, s1) if span else []
        tss = []
        for s in job["subs"]:
            m = s["ts"]
            u = s0 + span * rng.random(m)
            for j in range(m):
                r = rng.random()
                if r < 0.15: u[j] = s0
                elif r < 0.3: u[j] = s1
                elif r < 0.5 and at: u[j] = at[int(rng.integers(len(at)))][1]
                elif r < 0.6 and j: u[j] = u[j - 1]
                elif r < 0.7 and at:   # cluster in one step
                    a, b = at[int(rng.integers(len(at)))]
                    u[j] = a + (b - a) * rng.random()
            if job["event"] == "root":
                u = np.where(np.abs(u - d * c["te"]) < 1e-5 * max(span, 1e-9), s0, u)
            u = np.sort(np.clip(u, s0, s1))
            tss.append([float(d * x) for x in u])
        c["tss"] = tss
        return c

    def execute(self, c):
        S = self.S
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, s0, s1)
        for k, kind in c.get("faults") or []:
            if k < len(at):
                fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        ts, ys, log, result, rt0, rt1 = sut(lambda: self.fn(
            S.schedule_arrays(c, N), fl, c["t0"], c["t1"], d * c["dt0"], np.asarray(c["y0"]), np.asarray(c["p"]), c["te"],
            [np.asarray(x) for x in c["tss"]]))
        out = []
        for s, t, y in zip(self.job["subs"], ts, ys):
            y = self.shape.flat(y) if s["fn"] == "y" else np.stack([np.asarray(y["a"]), np.asarray(y["b"][0])], 1)
            out.append((np.asarray(t), y))
        return dict(out=out, log=S.read_log(log), result=S.result_name(result), span=(float(rt0), float(rt1)))

    def check(self, c, o, st):
        job, log = self.job, o["log"]
        t0, t1 = c["t0"], c["t1"]
        d = 1 if t1 > t0 else -1
        s0, s1 = d * t0, d * t1
        n = log["n"]
        p = np.asarray(c["p"])
        m = ref.Method(job["solver"], p)
        acc = [k for k in range(n) if log["keep"][k]]
        st.steps += n
        st.sim_time += float(sum(log["t1"][k] - log["t0"][k] for k in acc))
        se = d * c["te"]
        # ---- where the solve has to have stopped
        fails = {k for k, _ in c["faults"]}
        stop, kind = None, None
        for k in range(n):
            keep = bool(log["keep"][k])
            bad = (c["code"][k] if k < len(c["code"]) else 0) or (keep and k in fails)
            tp = min(log["tprev"][k], s1)
            ev = False
            if job["event"] != "none" and not bad:
                g_old = np.sign(d * (d * log["t0"][k] - c["te"]))
                g_new = np.sign(d * (d * tp - c["te"]))
                ev = keep and (g_new >= 0 if job["event"] == "bool" else g_old != g_new)
            if bad or ev:
                stop, kind = k, ("failure" if bad else "event")
                break
        at_init = job["event"] == "bool" and d * (t0 - c["te"]) >= 0
        if t0 == t1 and not at_init:
            kind = "empty"
        if at_init:
            kind = "event_at_t0"
        if kind in ("empty", "event_at_t0"):
            if n: return V("stop", f"{n} attempts although the solve should not start ({kind})")
        elif stop is not None and stop != n - 1:
            return V("stop", f"attempt {stop} ended the solve ({kind}) but {n} attempts were made")
        if kind is None:
            kind = "end" if acc and min(log["tprev"][acc[-1]], s1) >= s1 else "limit"
            if kind == "limit" and n != N:
                return V("stop", f"the solve stopped after {n} attempts for no reason")
        st.fault({"failure": "failure", "event": "event", "limit": "step_limit", "empty": "empty_interval",
                  "event_at_t0": "event", "end": "none"}[kind])
        st.fault("rejected_attempt", n - len(acc))
        tf = min(log["tprev"][acc[-1]], s1) if acc else s0
        yf = log["y1"][acc[-1]] if acc else np.asarray(c["y0"])
        rooted = False
        if kind == "event" and job["event"] == "root":
            k = acc[-1]
            tf, rooted = min(max(se, log["t0"][k]), log["t1"][k]), True
            yf = m.dense(d * log["t0"][k], d * log["t1"][k], log["y0"][k], log["y1"][k], [d * tf])[0]
        tolt = 1e-7 if rooted else 0.0
        tolv = 2e-6 if self.imp or rooted else 2e-8
        word = []
        for s, (gts, gys), req in zip(job["subs"], o["out"], c["tss"]):
            exp = []
            if s["t0"]:
                exp.append((s0, np.asarray(c["y0"])))
            i = 0
            req_s = [d * x for x in req]
            for cnt, k in enumerate(acc, 1):
                a, b = log["t0"][k], log["t1"][k]
                j = i
                while j < len(req_s) and req_s[j] <= b: j += 1
                if j > i:
                    vals = m.dense(d * a, d * b, log["y0"][k], log["y1"][k], [d * x for x in req_s[i:j]])
                    exp += list(zip(req_s[i:j], vals))
                    word.append((k, j - i, req_s[j - 1] == b))
                i = j
                if s["steps"] and cnt % s["steps"] == 0:
                    exp.append((min(log["tprev"][k], s1), log["y1"][k]))
            via = bool(s["steps"]) and len(acc) > 0 and len(acc) % s["steps"] == 0
            cutlast = False
            if rooted:
                cutlast = via and min(log["tprev"][acc[-1]], s1) > tf
                exp = [e for e in exp if e[0] <= tf]
            if t0 == t1:
                exp += [(s0, np.asarray(c["y0"]))] * len(req)
            if (s["t1"] and not via) or cutlast:
                exp.append((tf, yf))
            if gts.shape[0] < len(exp):
                return V("buffer", f"room for {gts.shape[0]} outputs, {len(exp)} due")
            k = len(exp)
            fin = int(np.sum(np.isfinite(gts)))
            et = d * np.asarray([e[0] for e in exp], float)
            if fin != k or not np.all(np.isposinf(gts[k:])) or (k and np.max(np.abs(gts[:k] - et)) > tolt):
                return V("times", f"sub {s}: saved times {gts.tolist()}, due {et.tolist()} (stop: {kind}, accepted ends "
                         f"{[float(d * log['t1'][q]) for q in acc]})")
            if k:
                ev = np.stack([e[1] for e in exp])
                if s["fn"] == "stat":
                    ev = np.stack([ev.sum(1) * (1 + et) * p[0], ev[:, 0] + et], 1)
                if not np.all(np.abs(gys[:k] - ev) <= tolv * (1 + np.abs(ev))):
                    r = int(np.argmax(np.max(np.abs(gys[:k] - ev) / (1 + np.abs(ev)), 1)))
                    return V("values", f"sub {s}: value saved at t={gts[r]} is {gys[r]}, expected {ev[r]}")
            if not np.all(np.isposinf(gys[k:])):
                return V("padding", f"sub {s}: unused slots hold {gys[k:]}")
            if o["span"][0] != t0:
                return V("span", f"Solution.t0 = {o['span'][0]}")
        exp_res = {"end": ["successful"], "limit": ["max_steps_reached"], "event": ["event_occurred"], "event_at_t0": ["event_occurred"],
                   "empty": ["successful"]}.get(kind)
        if exp_res and o["result"] not in exp_res:
            return V("result", f"{o['result']} for a solve that stopped because of: {kind}")
        if kind == "failure" and o["result"] in ("successful", "event_occurred", "max_steps_reached"):
            return V("result", f"{o['result']} for a solve that stopped because of: {kind}")
        if len(acc) < n or kind != "end" or any(w[2] for w in word):
            st.nontrivial.add(digest([job["name"], cm.pattern(log), kind, word]))
        return None

    def shrink(self, c):
        import copy
        yield from self.S.shrink_schedule(c)
        for i, ts in enumerate(c["tss"]):
            for j in range(len(ts)):   # collapse requested times onto the next one
                if j + 1 < len(ts) and ts[j] != ts[j + 1]:
                    e = copy.deepcopy(c); e["tss"][i][j] = ts[j + 1]; yield e
