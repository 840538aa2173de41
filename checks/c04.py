"""C04: an interrupted solve can be resumed as if it had never stopped."""
from __future__ import annotations
import numpy as np
from sim import ref, sde
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one uninterrupted solve plus the same solve cut into segments (by a step limit of m attempts, or at an accepted "
         "step end) and resumed from the returned states; non-trivial = at least one resume; distinct by (configuration, direction, "
         "accept/reject word, cut positions)",
    measure="distinct (method, controller, interruption kind, accept/reject word, cut positions)",
    real=["diffeqsolve loop", "returned solver_state/controller_state/made_jump", "PIDController, ConstantStepSize, ClipStepSizeController",
          "all methods (FSAL, multistep, reversible, implicit, Langevin, SRK)", "VirtualBrownianTree", "events"],
    stub=["scripted scheduler (in the scripted configurations)", "recorder around the real controllers"],
    assumptions=["dt0 of a resumed solve is the length of the attempt that was due next"],
)
N = 24
ODE = ["Tsit5", "Dopri5", "Dopri8", "Bosh3", "Heun", "Euler", "ReversibleHeun", "LeapfrogMidpoint", "SemiImplicitEuler", "Kvaerno3",
       "Kvaerno5", "KenCarp4", "Sil3", "ImplicitEuler", "Half:Tsit5", "Half:ReversibleHeun", "Midpoint", "Ralston", "KenCarp3",
       "KenCarp5", "Kvaerno4", "Half:Kvaerno3", "Half:Euler"]
SDE = ["ALIGN", "ShOULD", "QUICSORT", "SPaRK", "ShARK", "ReversibleHeun", "Heun", "EulerHeun"]
NOERR = ("Euler", "LeapfrogMidpoint", "SemiImplicitEuler", "EulerHeun", "ShOULD", "QUICSORT")


def jobs(seed, tier):
    rng = rng_for(seed, "C04", "jobs")
    out = []

    def add(i, kind, s, ctl):
        base = s.split(":")[-1]
        if ctl in ("pid", "clip") and s in NOERR: ctl = "scripted"
        mode = ["limit", "limit", "split"][int(rng.integers(3))]
        # (the grid of ConstantStepSize is laid out over the whole of [t0, t1]: a shorter t1 legitimately changes it)
        if ctl == "const": mode = "limit"
        m = int(rng.choice([1, 2, 3, 5]))
        ev = "none" if kind == "sde" else ["none", "none", "real", "root"][int(rng.integers(4))]
        out.append(dict(name=f"{i:03d}-{kind}-{s}-{ctl}-{mode}{m}-{ev}", kind=kind, solver=s, ctl=ctl, mode=mode, m=m, event=ev,
                        shape="pair" if base == "SemiImplicitEuler" else ["vec3", "tree", "scalar"][int(rng.integers(3))],
                        rejbuf=bool(rng.random() < 0.5), adjoint=["rec", "direct", "forward"][int(rng.integers(3))],
                        runs=(20 if base in ref.IMPLICIT or kind == "sde" else 45) if tier == "quick" else 300, cost=3.0 if base in ref.IMPLICIT else 1.0))
    i = 0
    ctls = ["scripted", "pid", "clip", "clipscripted", "const"]
    for r in range(1 if tier == "quick" else 4):
        perm = [ODE[int(j)] for j in rng.permutation(len(ODE))]
        for k, s in enumerate(perm):
            add(i, "ode", s, ctls[(k + r) % 5]); i += 1
        for k, s in enumerate(["Tsit5", "Dopri5", "ReversibleHeun", "Bosh3"]):   # FSAL x clip, always
            add(i, "ode", s, ["clip", "scripted", "clipscripted", "clip"][k]); i += 1
        for k, s in enumerate(SDE):
            add(i, "sde", s, ["scripted", "clipscripted"][(k + r) % 2]); i += 1
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, jax.tree_util as jtu, optimistix as optx, diffrax as dfx
        from sim import system as S
        self.job, self.S, self.jtu = job, S, jtu
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        is_sde = job["kind"] == "sde"
        if is_sde:
            L = self.L = sde.Layout("lang" if job["solver"] in sde.LANGEVIN else ("add" if job["solver"] in sde.ADDITIVE else "vec"))
            lev = sde.levy_cls("K" if L.kind == "lang" else sde.LEVY.get(job["solver"]))
            solver, self.d = sde.make_solver(job["solver"]), L.d
            pack, self.flat = (lambda v: sde.pack(L, v)), (lambda ys: sde.state_flat(L, ys))
        else:
            shape = S.Shape(job["shape"])
            solver, self.d = S.make_solver(job["solver"]), shape.d
            pack, self.flat = shape.pack, shape.flat
            terms0 = S.make_terms(job["solver"], shape)
        adjoint = S.make_adjoint(job["adjoint"])
        NT = self.NT = 5

        def run(max_steps, c, t0, y0, dt0, ts, states):
            t1 = c["t1"]
            terms = terms0 if not is_sde else sde.make_terms(job["solver"], L, dfx.VirtualBrownianTree(
                c["lo"], c["hi"], 2.0 ** -7, sde.noise_shape(L), jr.wrap_key_data(c["key"]), lev), c["q"])
            if job["ctl"] in ("scripted", "clipscripted"):
                ctl = S.ScriptedController(**c["sc"], with_jump=job["ctl"] == "scripted", with_code=False, record=job["ctl"] == "scripted")
                if job["solver"] == "Euler" and is_sde: ctl = S.PlainScripted(ctl)
            elif job["ctl"] == "const":
                ctl = dfx.ConstantStepSize()
            else:
                ctl = dfx.PIDController(rtol=c["tol"], atol=c["tol"], pcoeff=0.3, icoeff=0.4, dcoeff=0.1)
            if job["ctl"].startswith("clip"):
                ctl = dfx.ClipStepSizeController(ctl, step_ts=c["step_ts"], jump_ts=c["jump_ts"],
                                                 store_rejected_steps=40 if job["rejbuf"] else None)
            if job["ctl"] != "scripted":
                ctl = S.Recorder(ctl, 2 * N)
            g = lambda t, y, args, **kw: t - args["te"]
            event = {"none": None, "real": dfx.Event(g), "root": dfx.Event(g, optx.Newton(1e-11, 1e-11))}[job["event"]]
            kw = {} if states is None else dict(solver_state=states[0], controller_state=states[1], made_jump=states[2])
            sol = dfx.diffeqsolve(terms, solver, t0, t1, dt0, pack(y0), dict(p=c["p"], te=c["te"]), stepsize_controller=ctl, adjoint=adjoint,
                                  saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(t1=True), dfx.SubSaveAt(steps=True), dfx.SubSaveAt(ts=ts)],
                                                    solver_state=True, controller_state=True, made_jump=True),
                                  max_steps=max_steps, throw=False, event=event, **kw)
            return (sol.ts, sol.ys, (sol.solver_state, sol.controller_state, sol.made_jump), sol.controller_state[1], sol.result,
                    sol.stats, sol.event_mask)
        full = jax.jit(lambda c, t0, y0, dt0, ts: run(N, c, t0, y0, dt0, ts, None))
        self.full = full
        ms = job["m"] if job["mode"] == "limit" else N
        self.first = full if job["mode"] == "split" else jax.jit(lambda c, t0, y0, dt0, ts: run(ms, c, t0, y0, dt0, ts, None))
        self.resume = jax.jit(lambda c, t0, y0, dt0, ts, st: run(ms, c, t0, y0, dt0, ts, st))

    def gen(self, rng, i):
        job, S = self.job, self.S
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.d), q=float(np.round(0.3 + rng.random(), 3)))
        c.update(S.gen_schedule(rng, N, span))
        c["tol"] = float(10.0 ** rng.uniform(-6, -2))
        if job["ctl"] == "const":
            c["dt0"] = span / int(rng.integers(3, 15)) * float(rng.choice([1.0, 1.0, 0.93]))
        if job["ctl"] in ("pid", "clip"):
            c["dt0"] = span * float(10 ** rng.uniform(-3, 0))
        if job["ctl"] == "scripted" and rng.random() < 0.6:
            c["jump"] = [bool(x) for x in rng.random(N) < 0.3]
            c["gap"] = [float(x) for x in np.where(rng.random(N) < 0.3, 0.0, span * 0.02 * rng.random(N))]
        q = lambda n, lo, hi: sorted(float(t0 + d * span * x) for x in rng.uniform(lo, hi, n))
        c["step_ts"], c["jump_ts"] = q(3, -0.1, 1.1), q(2, -0.1, 1.1)
        c["ts"] = [float(t0 + d * span * x) for x in np.sort(rng.uniform(0.001, 1, self.NT))]
        c["key"] = [int(x) for x in rng.integers(0, 2 ** 32, 2)]
        c["te"] = float(t0 + d * span * rng.uniform(0.3, 0.98)) if rng.random() < 0.7 else t0 + d * (span + 3)
        c["cut"] = float(rng.random())
        c["cuts"] = int(rng.integers(1, 3))
        return c

    def _obs(self, o):
        ts, ys, states, log, result, stats, em = o
        S = self.S
        return dict(tf=np.asarray(ts[0]), yf=self.flat(ys[0]), ts=np.asarray(ts[1]), ys=self.flat(ys[1]), tq=np.asarray(ts[2]), yq=self.flat(ys[2]),
                    log=S.read_log(log), result=S.result_name(result), n=int(stats["num_steps"]), na=int(stats["num_accepted_steps"]),
                    em=[bool(x) for x in self.jtu.tree_leaves(em)])

    def execute(self, c):
        S, job = self.S, self.job
        d = 1 if c["t1"] > c["t0"] else -1
        A = lambda k: np.asarray(c[k], float)
        base = dict(t1=np.float64(c["t1"]), sc=S.schedule_arrays(c, 2 * N), p=A("p"), q=A("q"), tol=A("tol"), te=A("te"),
                    lo=np.float64(min(c["t0"], c["t1"])), hi=np.float64(max(c["t0"], c["t1"])), key=np.asarray(c["key"], np.uint32),
                    step_ts=A("step_ts"), jump_ts=A("jump_ts"))
        args = (base, np.float64(c["t0"]), A("y0"), np.float64(d * c["dt0"]), A("ts"))
        fo = sut(lambda: self.full(*args))
        full = self._obs(fo)
        log = full["log"]
        n = log["n"]
        segs, segn = [], []
        states = None
        t, y = c["t0"], A("y0")
        k = 0              # attempts consumed so far
        consumed = 0       # requested output times already passed
        cuts = []
        if job["mode"] == "split":
            opts = []
            # The last step of a solve is clipped to its end, and halved towards it after a rejection: the cut
            # solve is comparable only if nothing before attempt j was proposed to reach its end, and j was
            # proposed to end exactly there following an accepted attempt.
            raw = np.concatenate([[log["t0"][0] + c["dt0"]], log["tnext"]])
            for j in range(n - 1):
                T = log["t1"][j]
                if (log["keep"][j] and log["tprev"][j] == T and (j == 0 or log["keep"][j - 1]) and raw[j] == T
                        and np.all(raw[:j] < T - 1e-6)):
                    opts.append(j)
            opts = [j for j in opts if d * log["t1"][j] != c["t1"]]
            # step_ts/jump_ts next to the cut would be clipped differently
            lim = sorted(set(opts[int((c["cut"] + 0.37 * r) % 1 * len(opts))] for r in range(c["cuts"]))) if opts else []
            cuts = lim
        guard = 0
        ok = True
        while guard < 3 * N:
            guard += 1
            b = dict(base)
            if job["mode"] == "split":
                nxt = [j for j in cuts if j >= k]
                if nxt: b["t1"] = np.float64(d * log["t1"][nxt[0]])
            rem = c["ts"][consumed:]
            tend = float(b["t1"])
            tsq = [x for x in rem if d * x <= d * tend]
            tsq = np.asarray(tsq + [tend] * (self.NT - len(tsq)), float)
            if states is None:
                o = sut(lambda: self.first(b, np.float64(t), y, np.float64(d * c["dt0"]), tsq))
            else:
                if k >= n: ok = False; break
                s, e = log["t0"][k], log["t1"][k]
                if d * s != t: ok = False; break
                dt = e - s
                zs = [dt, np.nextafter(dt, np.inf), np.nextafter(dt, 0)]
                # exact if there is such a dt0; otherwise one that the loop clips back to e (if e is a prescribed time)
                dt = next((z for z in zs if s + z == e), None) or next(z for z in zs if s + z >= e)
                o = sut(lambda: self.resume(b, np.float64(t), y, np.float64(d * dt), tsq, states))
            ob = self._obs(o)
            nrem = int(sum(1 for x in rem if d * x <= d * ob["tf"][0] + (0 if ob["result"] != "event_occurred" else 0)))
            ob["nq"] = nrem
            segs.append(ob)
            consumed += nrem
            states = o[2]
            k += ob["n"]
            t, y = float(ob["tf"][0]), ob["yf"][0]
            more = (ob["result"] == "max_steps_reached") if job["mode"] == "limit" else (ob["result"] == "successful" and t != c["t1"])
            if not more or k >= N or k >= n:
                break
        return dict(full=full, segs=segs, cuts=cuts, k=k)

    def check(self, c, o, st):
        job = self.job
        d = 1 if c["t1"] > c["t0"] else -1
        f, segs = o["full"], o["segs"]
        n = f["log"]["n"]
        acc = [k for k in range(n) if f["log"]["keep"][k]]
        st.steps += n + sum(s["n"] for s in segs)
        st.sim_time += 2 * float(sum(f["log"]["t1"][k] - f["log"]["t0"][k] for k in acc))
        st.fault("interruption_" + job["mode"], len(segs) - 1)
        st.fault("rejected_attempt", n - len(acc))
        tol = 1e-6 if (self.imp or job["kind"] == "sde") else 1e-9
        where = f"(cut after attempts {np.cumsum([s['n'] for s in segs])[:-1].tolist()} of {n}, history {cm.pattern(f['log'])})"
        # internal_error of a controller whose rejected-step buffer overflows etc. ends both alike
        if sum(s["n"] for s in segs) != n and not (f["result"] == "max_steps_reached"):
            return V("attempts", f"{[s['n'] for s in segs]} attempts over the segments, {n} uninterrupted {where}; results {[s['result'] for s in segs]} vs {f['result']}")
        cmpn = min(sum(s["n"] for s in segs), n)
        # ---- the recorded attempts (the log travels in the controller state)
        L = segs[-1]["log"]
        if L["n"] != sum(s["n"] for s in segs):
            return V("log", f"controller state lost history: {L['n']} recorded, {sum(s['n'] for s in segs)} attempted {where}")
        for key in ("t0", "t1", "tprev"):
            a, b = L[key][:cmpn], f["log"][key][:cmpn]
            if key == "tprev": a, b = np.minimum(a, d * c["t1"]), np.minimum(b, d * c["t1"])
            if not ref.close(a, b, 1e-11):
                j = int(np.argmax(np.abs(a - b) > 1e-11 * (1 + np.abs(b))))
                return V("times", f"attempt {j} {key}: {a[j]!r} when resumed, {b[j]!r} uninterrupted {where}")
        if not np.array_equal(L["keep"][:cmpn], f["log"]["keep"][:cmpn]):
            return V("decisions", f"accept/reject {cm.pattern(L)} when resumed {where}")
        for key in ("y0", "y1"):
            a, b = L[key][:cmpn], f["log"][key][:cmpn]
            if not ref.close(a, b, tol):
                j = int(np.argmax(np.max(np.abs(a - b) / (1 + np.abs(b)), 1)))
                return V("values", f"attempt {j} {key}: {a[j]} when resumed, {b[j]} uninterrupted {where}")
        if f["result"] == "max_steps_reached":
            if len(segs) > 1: st.nontrivial.add(digest([job["name"], d, cm.pattern(f["log"]), [s["n"] for s in segs]]))
            return None
        # ---- outputs
        ts = np.concatenate([s["ts"][np.isfinite(s["ts"])] for s in segs])
        ys = np.concatenate([s["ys"][np.isfinite(s["ts"])] for s in segs])
        fin = np.isfinite(f["ts"])
        if ts.shape != f["ts"][fin].shape or not ref.close(ts, f["ts"][fin], 1e-7 if job["event"] == "root" else 1e-11):
            return V("step_outputs", f"steps saved {ts.tolist()} when resumed, {f['ts'][fin].tolist()} uninterrupted {where}")
        if not ref.close(ys, f["ys"][fin], max(tol, 1e-6 if job["event"] == "root" else 0)):
            return V("step_outputs", f"values of the saved steps differ {where}")
        if job["event"] != "root":
            tq = np.concatenate([s["tq"][:s["nq"]] for s in segs])
            yq = np.concatenate([s["yq"][:s["nq"]] for s in segs])
            k = len(tq)
            due = [x for x in c["ts"] if d * x <= d * f["tf"][0]]
            # times inside the gap of a (scripted, wide) jump belong to no step: not compared
            lg = f["log"]
            ok = np.array([not any(lg["t1"][j] < d * x < lg["tprev"][j] for j in acc) for x in due], bool)
            if k != len(due) or not ref.close(tq[ok], f["tq"][:k][ok], 1e-11) or not ref.close(yq[ok], f["yq"][:k][ok], tol):
                return V("ts_outputs", f"requested outputs {tq.tolist()} {yq.tolist()} when resumed, {f['tq'].tolist()} {f['yq'].tolist()} uninterrupted {where}")
        if segs[-1]["result"] != f["result"] or segs[-1]["em"] != f["em"]:
            return V("result", f"{segs[-1]['result']} {segs[-1]['em']} when resumed, {f['result']} {f['em']} uninterrupted {where}")
        if not ref.close(segs[-1]["tf"], f["tf"], 1e-7) or not ref.close(segs[-1]["yf"], f["yf"], max(tol, 1e-6 if job["event"] == "root" else 0)):
            return V("final", f"final {segs[-1]['tf']} {segs[-1]['yf']} when resumed, {f['tf']} {f['yf']} uninterrupted {where}")
        if sum(s["na"] for s in segs) != f["na"]:
            return V("stats", f"accepted {[s['na'] for s in segs]} vs {f['na']}")
        if len(segs) > 1:
            st.nontrivial.add(digest([job["name"], d, cm.pattern(f["log"]), [s["n"] for s in segs]]))
        return None

    def shrink(self, c):
        yield from self.S.shrink_schedule(c)
