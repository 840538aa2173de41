"""C01: the solution is the composition of the accepted steps under every schedule."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one solve under one seeded accept/reject/size/jump script with faults injected into rejected "
         "attempts; non-trivial = at least one rejection, jump or fault; distinct by (configuration, direction, "
         "accept/reject pattern, fault kinds, jump pattern)",
    measure="distinct (configuration, direction, accept/reject word, jump word, fault word)",
    real=["diffeqsolve loop", "all ODE methods (explicit, implicit, IMEX, symplectic, reversible, multistep, HalfSolver)",
          "root finders", "SaveAt", "adjoint loop kinds"],
    stub=["step size controller (scripted scheduler)", "method wrapper injecting faults"],
    assumptions=["numpy reference steps from frozen coefficient tables", "float64 tolerance 1e-9 (3e-7 for implicit methods)"],
)

N = 22


def jobs(seed, tier):
    out = []
    rng = rng_for(seed, "C01", "jobs")
    shapes = ["scalar", "vec3", "tree", "mat"]
    kinds = ["rec", "rec:3", "direct", "forward"]
    runs = 200 if tier == "quick" else 1500
    reps = 1 if tier == "quick" else 3
    for r in range(reps):
        for i, s in enumerate(cm.ODE_METHODS):
            base = s[5:] if s.startswith("Half:") else s
            shape = "pair" if base == "SemiImplicitEuler" else shapes[rng.integers(len(shapes))]
            adj = kinds[rng.integers(len(kinds))]
            scan = [None, "lax", "bounded", "checkpointed"][rng.integers(4)]
            imp = base in ref.IMPLICIT
            # every method is run with the jump/fault machinery, and the FSAL ones also without
            variants = [(True, True)]
            if base in ("Tsit5", "Dopri5", "Bosh3", "Kvaerno3", "Kvaerno5", "KenCarp4") and s == base:
                variants.append((False, False))
            for wj, fa in variants:
                out.append(dict(name=f"{r}-{s}-{shape}-{adj}-{scan}-j{int(wj)}f{int(fa)}", chord=not wj, solver=s, shape=shape, adjoint=adj,
                                scan=scan, jump=wj, faulty=fa, f32=False, runs=runs // (2 if imp else 1),
                                cost=3.0 if imp else 1.0))
        for adj in ("backsolve",):
            out.append(dict(name=f"{r}-Tsit5-vec3-{adj}", solver="Tsit5", shape="vec3", adjoint=adj, scan=None, jump=False,
                            faulty=True, f32=False, runs=runs))
        out.append(dict(name=f"{r}-Tsit5-vec3-f32", solver="Tsit5", shape="vec3", adjoint="rec", scan=None, jump=False,
                        faulty=False, f32=True, runs=runs))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, diffrax as dfx
        from sim import system as S
        self.job, self.S = job, S
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        shape = self.shape = S.Shape(job["shape"])
        solver = S.make_solver(job["solver"], job["scan"], job.get("chord", False))
        terms = S.make_terms(job["solver"], shape)
        adjoint = S.make_adjoint(job["adjoint"])
        self.steps = job["adjoint"] not in ("backsolve", "implicit")

        def solve(sc, fl, t0, t1, dt0, y0, p):
            ctl = S.ScriptedController(**sc, with_jump=job["jump"], with_code=False)
            sol = S.FaultySolver(solver, fl["at"], fl["start"], fl["kind"]) if job["faulty"] else solver
            if self.steps:
                sa = dfx.SaveAt(subs=[dfx.SubSaveAt(t1=True), dfx.SubSaveAt(steps=True)], controller_state=True)
            else:
                sa = dfx.SaveAt(t1=True, controller_state=True)
            return dfx.diffeqsolve(terms, sol, t0, t1, dt0, shape.pack(y0), p, saveat=sa, stepsize_controller=ctl,
                                   adjoint=adjoint, max_steps=N, throw=False)
        self.fn = jax.jit(solve)
        c = self.gen(rng_for("build"), 0)
        self.execute(c)

    def gen(self, rng, i):
        job, S = self.job, self.S
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, self.shape.d, self.job.get('chord', False)))
        c.update(S.gen_schedule(rng, N, abs(t1 - t0)))
        if job["f32"]:
            c["dt"] = [max(x, 1e-3) for x in c["dt"]]
        if job["jump"] and rng.random() < 0.6:
            c["jump"] = [bool(x) for x in rng.random(N) < 0.3]
            c["gap"] = [float(x) for x in np.where(rng.random(N) < 0.5, 0.0, abs(t1 - t0) * 0.02 * rng.random(N))]
        if job["faulty"]:
            rej = [k for k in range(N) if not c["keep"][k]]
            c["faults"] = [[int(k), int(rng.integers(1, 7))] for k in rej if rng.random() < 0.6]
        return c

    def execute(self, c):
        S, job = self.S, self.job
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, s0, s1)
        for k, kind in c.get("faults") or []:
            if k < len(at) and k < len(c["keep"]) and not c["keep"][k]:
                fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        f = np.float32 if job["f32"] else np.float64
        sol = sut(lambda: self.fn(S.schedule_arrays(c, N), fl, f(c["t0"]), f(c["t1"]), f(d * c["dt0"]),
                                  np.asarray(c["y0"], f), np.asarray(c["p"], f)))
        log = S.read_log(sol.controller_state[1])
        ts, ys = sol.ts, sol.ys
        if self.steps:
            out = dict(tf=np.asarray(ts[0]), yf=self.shape.flat(ys[0]), ts=np.asarray(ts[1]), ys=self.shape.flat(ys[1]))
        else:
            out = dict(tf=np.asarray(ts), yf=self.shape.flat(ys))
        faulted = [k for k in range(log["n"]) if k < N and fl["kind"][k] and abs(fl["at"][k] - log["t1"][k]) < 1e-9 and abs(fl["start"][k] - log["t0"][k]) < 1e-9]
        # a fault is keyed by the interval, so an identical later attempt is disturbed as well
        for k in range(log["n"]):
            if any(fl["kind"][j] and abs(fl["at"][j] - log["t1"][k]) < 1e-9 and abs(fl["start"][j] - log["t0"][k]) < 1e-9 for j in range(N)):
                faulted.append(k)
        return dict(log=log, stats={k: int(sol.stats[k]) for k in ("num_steps", "num_accepted_steps", "num_rejected_steps")},
                    result=S.result_name(sol.result), faulted=sorted(set(faulted)), **out)

    def check(self, c, o, st):
        job = self.job
        d = 1 if c["t1"] > c["t0"] else -1
        f = np.float32 if job["f32"] else np.float64
        s0, s1, dt0 = f(d * c["t0"]), f(d * c["t1"]), f(c["dt0"])
        log, f32 = o["log"], job["f32"]
        n = log["n"]
        acc = [k for k in range(n) if log["keep"][k]]
        bad = set(o["faulted"])
        # An identical interval that is later accepted carries the fault into the solution: cut the
        # history there (everything before it is still checked).
        first = min([k for k in acc if k in bad], default=None)
        st.steps += n
        st.sim_time += float(sum(log["t1"][k] - log["t0"][k] for k in acc)) if n else 0.0
        for k in o["faulted"]:
            st.fault(self.S.FAULT_KINDS[next((kd for kk, kd in c["faults"] if kk == k), 1)])
        rej = n - len(acc)
        st.fault("rejected_attempt", rej)
        jump = c.get("jump")
        nj = sum(1 for k in acc if jump and k < len(jump) and jump[k])
        st.fault("jump", nj)
        if rej or nj or bad:
            st.nontrivial.add(digest([job["name"], d, cm.pattern(log), sorted(bad), list(jump[:n]) if jump else 0]))
        v, ends = cm.check_schedule(log, s0, s1, dt0, f32)
        if v: return v
        want = [bool(x) for x in c["keep"][:n]] + [True] * max(0, n - len(c["keep"]))
        if [bool(x) for x in log["keep"]] != want:
            return V("attempt_order", "the controller was not consulted exactly once per attempt")
        if first is not None:   # fault leaked into an accepted attempt: only the prefix is comparable
            st.probe("history_cut_at_accepted_fault")
            log = {k: (v[:first] if k != "n" else first) for k, v in log.items()}
            return self._values(c, log, d, bad, jump)
        v = cm.check_stats(o["stats"], log)
        if v: return v
        reached = bool(ends) and ends[-1] >= s1
        exp = "successful" if reached else "max_steps_reached"
        if o["result"] != exp or (not reached and n != N):
            return V("result", f"result {o['result']} after {n}/{N} attempts, time {ends[-1] if ends else s0} of {s1}")
        tf = ends[-1] if ends else s0
        yf = log["y1"][acc[-1]] if acc else np.asarray(c["y0"], f)
        tol0 = 1e-6 if f32 else 1e-12
        if o["tf"].shape[0] != 1 or o["tf"][0] != d * tf:
            return V("final_time", f"final time {o['tf']}, accepted steps end at {d * tf}")
        if not np.allclose(o["yf"][0], yf, rtol=tol0, atol=tol0, equal_nan=True):
            return V("final_value", f"final value {o['yf'][0]}, last accepted step gave {yf}")
        if "ts" in o:
            m = len(acc)
            if not (np.array_equal(o["ts"][:m], d * np.asarray(ends, o["ts"].dtype)) and np.all(np.isposinf(o["ts"][m:]))):
                return V("saved_steps", f"saved step times {o['ts']}, accepted ends {ends}")
            if m and not np.allclose(o["ys"][:m], log["y1"][acc], rtol=tol0, atol=tol0, equal_nan=True):
                return V("saved_steps", f"saved step values differ from accepted values")
        return self._values(c, log, d, bad, jump)

    def _values(self, c, log, d, bad, jump):
        job = self.job
        method = ref.Method(job["solver"], np.asarray(c["p"]))
        log = {k: (np.asarray(v, np.float64) if k in ("y0", "y1", "t0", "t1", "err") else v) for k, v in log.items()}
        return cm.check_steps(log, method, d, ref.tol_for(job["solver"], job["f32"]), bad,
                              [bool(jump[k]) if k < len(jump) else False for k in range(log["n"])] if jump else None)

    def shrink(self, c):
        yield from self.S.shrink_schedule(c)
