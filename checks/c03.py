"""C03: failures are reported faithfully, and only real failures are."""
from __future__ import annotations
import numpy as np
from sim import ref
from sim.core import V, sut, rng_for, digest, SUTError
from . import common as cm

META = dict(
    rule="a run is one solve under a seeded schedule with seeded method failures, controller errors, poisoned values, events and "
         "step limits; non-trivial = at least one fault or early stop; distinct by (configuration, accept/reject word, fault word, outcome)",
    measure="distinct (configuration, accept/reject word, fault word per attempt, outcome)",
    real=["diffeqsolve loop", "result bookkeeping", "throw / error path", "PID and constant controllers (real jobs)", "implicit methods and root finders (real jobs)", "events"],
    stub=["step size controller (scripted jobs)", "method wrapper injecting failures", "vector field returning NaN in seeded time windows"],
    assumptions=["a NaN vector field makes an implicit step fail"],
)
N = 16


def jobs(seed, tier):
    rng = rng_for(seed, "C03", "jobs")
    out = []
    th = tier != "quick"
    i = 0
    for rep in range(4 if th else 1):
        for ev in ("none", "bool", "root", "two"):
            for throw in (False, True):
                for lim in ("N", "inf"):
                    adj = ["rec", "direct", "forward", "rec:2"][int(rng.integers(4))] if lim == "N" else ["rec", "forward"][int(rng.integers(2))]
                    s = ["Tsit5", "Heun", "Euler", "Dopri5", "ReversibleHeun", "KenCarp3", "ImplicitEuler", "Half:Euler"][i % 8]
                    out.append(dict(kind="script", name=f"s{rep}-{s}-{ev}-{'throw' if throw else 'quiet'}-{lim}-{adj}", solver=s, event=ev,
                                    throw=throw, limit=lim, adjoint=adj, runs=(60 if throw else 250) * (3 if th else 1), cost=1.5))
                    i += 1
        for s in ("ImplicitEuler", "Kvaerno3", "KenCarp4", "Tsit5", "Sil3", "Kvaerno5"):
            ctl = ["const", "pid", "pid_dtmin", "pid_force"]
            for c in (ctl if th else [ctl[int(rng.integers(1, 4))], "const"]):
                out.append(dict(kind="real", name=f"r{rep}-{s}-{c}", solver=s, controller=c, runs=120 * (3 if th else 1), cost=2.0))
    return out


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, optimistix as optx, diffrax as dfx, equinox as eqx
        from sim import system as S
        self.job, self.S = job, S
        shape = self.shape = S.Shape("vec3")
        self.imp = job["solver"].split(":")[-1] in ref.IMPLICIT
        if job["kind"] == "real":
            return self._init_real()
        solver = S.make_solver(job["solver"])
        terms = S.make_terms(job["solver"], shape)
        adjoint = S.make_adjoint(job["adjoint"])

        def solve(sc, fl, t0, t1, dt0, y0, p, te):
            d = jnp.where(t0 < t1, 1.0, -1.0)
            ctl = S.ScriptedController(**sc, with_jump=False, with_code=True, record=job["limit"] == "N")
            sol = S.FaultySolver(solver, fl["at"], fl["start"], fl["kind"])
            g = lambda t, y, args, **kw: args["d"] * (t - args["te"])
            b = lambda t, y, args, **kw: g(t, y, args) >= 0
            event = {"none": None, "bool": dfx.Event(b), "root": dfx.Event(g, optx.Newton(1e-10, 1e-10)),
                     "two": dfx.Event([lambda t, y, args, **kw: jnp.array(False), b])}[job["event"]]
            s = dfx.diffeqsolve(terms, sol, t0, t1, dt0, shape.pack(y0), dict(p=p, te=te, d=d),
                                saveat=dfx.SaveAt(t1=True, controller_state=True), stepsize_controller=ctl, adjoint=adjoint,
                                max_steps=N if job["limit"] == "N" else None, throw=job["throw"], event=event)
            return s.ts, s.ys, s.controller_state[0], s.result, s.stats["num_steps"], s.event_mask
        self.fn = eqx.filter_jit(solve)
        try:
            self.execute(self.gen(rng_for("build"), 0))
        except SUTError:
            if not job["throw"]: raise

    # ---------------------------------------------------------------- scripted jobs
    def gen(self, rng, i):
        job, S = self.job, self.S
        if job["kind"] == "real":
            return self._gen_real(rng, i)
        t0, t1, d = cm.gen_interval(rng, scale=0.25 if self.imp else 1.0)
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, 3))
        c.update(S.gen_schedule(rng, N, span))
        if rng.random() < 0.25:
            c["dt"] = [x * 0.25 for x in c["dt"]]
        if job["limit"] == "inf":
            c["keep"][-1] = True
            c["dt"][-1] = max(c["dt"][-1], span / 20)
        rate = rng.choice([0.0, 0.05, 0.2, 0.5])
        c["code"] = [int(rng.integers(1, 4)) if rng.random() < rate * 0.6 else 0 for _ in range(N)]
        c["code"][-1] = 0 if job["limit"] == "inf" else c["code"][-1]
        c["faults"] = [[k, int(rng.integers(1, 7))] for k in range(N) if rng.random() < rate]
        if rng.random() < 0.5:   # no fatal fault: everything that fails is rejected
            c["code"] = [0] * N
            c["faults"] = [f for f in c["faults"] if not c["keep"][f[0]]]
        if self.imp:   # a poisoned accepted state makes the next implicit solve fail for real
            c["faults"] = [f for f in c["faults"] if not (c["keep"][f[0]] and f[1] in (2, 6))]
        at = S.model_attempts(c, d * t0, d * t1)
        te = t0 + d * span * float(rng.uniform(0.02, 0.97))
        r = rng.random()
        if r < 0.35 and at:      # the event falls into a chosen attempt (often the failing one)
            bad = [k for k in range(len(at)) if c["code"][k] or any(f[0] == k for f in c["faults"])]
            k = int(rng.choice(bad)) if bad and rng.random() < 0.7 else int(rng.integers(len(at)))
            te = d * (at[k][0] + 0.6 * (at[k][1] - at[k][0]))
        elif r < 0.5:
            te = t0 + d * (span + 3)
        c["te"] = te
        return c

    def execute(self, c):
        S, job = self.S, self.job
        if job["kind"] == "real":
            return self._execute_real(c)
        d = 1 if c["t1"] > c["t0"] else -1
        fl = dict(at=np.full(N, -1e9), start=np.full(N, -1e9), kind=np.zeros(N, np.int32))
        at = S.model_attempts(c, d * c["t0"], d * c["t1"])
        for k, kind in c.get("faults") or []:
            if k < len(at):
                fl["start"][k], fl["at"][k], fl["kind"][k] = at[k][0], at[k][1], kind
        call = lambda: self.fn(S.schedule_arrays(c, N), fl, *(np.asarray(x) for x in (c["t0"], c["t1"], d * c["dt0"], c["y0"], c["p"], c["te"])))
        if job["throw"]:
            try:
                r = call()
                r[1].block_until_ready()
            except Exception as e:
                return dict(raised=True, text=str(e)[:200])
        else:
            r = sut(call)
        ts, ys, k, result, n, mask = r
        return dict(raised=False, result=S.result_name(result), other=int(result._value), n=int(n), k=int(k), tf=float(ts[0]),
                    mask=None if mask is None else [bool(x) for x in (mask if isinstance(mask, list) else [mask])])

    def check(self, c, o, st):
        job = self.job
        if job["kind"] == "real":
            return self._check_real(c, o, st)
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        # reference run of the driver (times only); faults are attached to the interval attempted
        full = dict(c)
        if job["limit"] == "inf":
            full["keep"] = c["keep"] + [True] * 400
            full["dt"] = c["dt"] + [c["dt"][-1]] * 400
        at = self.S.model_attempts(full, s0, s1)
        at0 = self.S.model_attempts(c, s0, s1)
        fmap = {}
        for k, kind in c["faults"]:
            if k < len(at0): fmap[at0[k]] = max(kind, fmap.get(at0[k], 0))
        if job["limit"] == "inf" and (not at or at[-1][1] < s1 or len(at) >= 400):
            return None   # only reachable by shrinking
        outcome, n, tp, word = None, 0, s0, ""
        for k, iv in enumerate(at):
            keep = full["keep"][k] if k < len(full["keep"]) else True
            code = c["code"][k] if k < len(c["code"]) else 0
            near = [kd for (a, b), kd in fmap.items() if abs(a - iv[0]) < 1e-9 and abs(b - iv[1]) < 1e-9]
            f = max(near, default=0)
            if self.imp and keep and f in (2, 6):
                return None   # an accepted poisoned state makes the next implicit solve fail for real
            word += f"{'a' if keep else 'r'}{f}{code};"
            n = k + 1
            if f: st.fault(self.S.FAULT_KINDS[f])
            if not keep: st.fault("rejected_attempt")
            old = tp
            if keep: tp = iv[1]
            if keep and f == 1: outcome = "other"
            elif code: outcome = self.S.CODES[code]
            elif job["event"] in ("bool", "two") and keep and tp >= d * c["te"]: outcome = "event_occurred"
            elif job["event"] == "root" and keep and np.sign(old - d * c["te"]) != np.sign(tp - d * c["te"]): outcome = "event_occurred"
            if code: st.fault("controller_error")
            if outcome: break
        if outcome is None:
            outcome = "successful" if tp >= s1 else "max_steps_reached"
        if outcome == "max_steps_reached": st.fault("step_limit")
        if outcome == "event_occurred": st.fault("event")
        st.steps += n
        st.sim_time += float(tp - s0)
        if outcome != "successful" or c["faults"]:
            st.nontrivial.add(digest([job["name"], word, outcome]))
        fails = outcome not in ("successful", "event_occurred")
        if job["throw"]:
            if o["raised"] != fails:
                return V("throw", f"expected outcome {outcome}; throw=True solve {'raised: ' + o['text'] if o['raised'] else 'did not raise'} ({word})")
            if o["raised"]: return None
        if o["result"] != outcome:
            return V("result", f"reported {o['result']}, expected {outcome}; attempts (a/r, fault, controller code): {word}")
        if o["n"] != n or o["k"] != n:
            return V("stop", f"{o['n']} attempts reported, {o['k']} made, expected {n}; outcome {outcome}; {word}")
        if o["mask"] is not None and any(o["mask"]) != (outcome == "event_occurred"):
            return V("mask", f"event mask {o['mask']} with outcome {outcome}")
        return None

    # ---------------------------------------------------------------- real controllers and methods
    def _init_real(self):
        import jax, jax.numpy as jnp, diffrax as dfx
        S, job, shape = self.S, self.job, self.shape
        solver = S.make_solver(job["solver"])

        def mod(t, f, a):
            bad = jnp.any((t > a["lo"]) & (t < a["hi"]))
            return jnp.where(bad, jnp.nan, f)
        terms = S.make_terms(job["solver"], shape, mod)
        M = 64

        def solve(t0, t1, dt0, y0, args):
            kw = dict(rtol=1e-3, atol=1e-3)
            ctl = {"const": dfx.ConstantStepSize(), "pid": dfx.PIDController(**kw),
                   "pid_dtmin": dfx.PIDController(**kw, dtmin=1e-3, force_dtmin=False),
                   "pid_force": dfx.PIDController(**kw, dtmin=1e-3, force_dtmin=True)}[job["controller"]]
            rec = S.Recorder(ctl, M)
            s = dfx.diffeqsolve(terms, solver, t0, t1, dt0, shape.pack(y0), args, saveat=dfx.SaveAt(t1=True, controller_state=True),
                                stepsize_controller=rec, max_steps=M, throw=False)
            return s.ts, s.ys, s.controller_state[1], s.result, s.stats
        self.fn = jax.jit(solve)
        self.M = M
        self.execute(self.gen(rng_for("build"), 0))

    def _gen_real(self, rng, i):
        t0, t1, d = cm.gen_interval(rng, scale=0.25)
        span = abs(t1 - t0)
        c = dict(t0=t0, t1=t1, **cm.gen_problem(rng, 3, linear=True))
        c["dt0"] = span / int(rng.integers(1, 20))
        lo, hi = [], []
        for _ in range(2):
            if rng.random() < 0.45:
                a = t0 + d * span * rng.random()
                b = a + d * span * float(rng.choice([0.01, 0.2, 2.0]))
                lo.append(min(a, b)); hi.append(max(a, b))
            else:
                lo.append(1e9); hi.append(1e9)
        c["lo"], c["hi"] = [float(x) for x in lo], [float(x) for x in hi]
        return c

    def _execute_real(self, c):
        d = 1 if c["t1"] > c["t0"] else -1
        ts, ys, log, result, stats = sut(lambda: self.fn(c["t0"], c["t1"], d * c["dt0"], np.asarray(c["y0"]),
                                         dict(p=np.asarray(c["p"]), lo=np.asarray(c["lo"]), hi=np.asarray(c["hi"]))))
        return dict(tf=float(ts[0]), yf=self.shape.flat(ys)[0], log=self.S.read_log(log), result=self.S.result_name(result),
                    stats={k: int(stats[k]) for k in ("num_steps", "num_accepted_steps", "num_rejected_steps")})

    def _check_real(self, c, o, st):
        job, log = self.job, o["log"]
        d = 1 if c["t1"] > c["t0"] else -1
        s0, s1 = d * c["t0"], d * c["t1"]
        n = log["n"]
        acc = [k for k in range(n) if log["keep"][k]]
        st.steps += n
        st.sim_time += float(sum(log["t1"][k] - log["t0"][k] for k in acc))
        nanw = [(min(d * a, d * b), max(d * a, d * b)) for a, b in zip(c["lo"], c["hi"]) if a < 1e8]
        st.fault("nan_vector_field_window", len(nanw))
        st.fault("rejected_attempt", n - len(acc))
        if nanw: st.nontrivial.add(digest([job["name"], d, cm.pattern(log), o["result"]]))
        v = cm.check_stats(o["stats"], log)
        if v: return v
        reached = bool(acc) and min(log["tprev"][acc[-1]], s1) >= s1
        failed = o["result"] not in ("successful", "max_steps_reached")
        # a method failure on an accepted step: a stage of the step lies strictly inside a NaN window
        hit = None
        base = job["solver"]
        if base in ref.IMPLICIT:
            cs = ref.TABLEAUS[base] if base in ref.TABLEAUS else None
            if isinstance(cs, list): cs = cs[1]
            for k in acc:
                a, b = log["t0"][k], log["t1"][k]
                stages = [b] if cs is None else [a + q * (b - a) for q, g in zip(cs["c"], cs["diag"]) if g]
                near = [x for x in stages for lo, hi in nanw if abs(x - lo) < 1e-9 or abs(x - hi) < 1e-9]
                if near: return None   # too close to a window edge to call
                if any(lo < x < hi for x in stages for lo, hi in nanw):
                    hit = k; break
        if hit is not None:
            if not failed or o["result"] == "dt_min_reached" and job["controller"] != "pid_dtmin":
                return V("hidden_failure", f"accepted step {hit} over [{log['t0'][hit]}, {log['t1'][hit]}] has a failing stage "
                         f"(NaN vector field) but the result is {o['result']}, final time {o['tf']}")
            if hit != n - 1:
                return V("stop", f"the failing accepted step {hit} was followed by {n - 1 - hit} more attempts")
            return None
        if o["result"] == "successful" and not reached:
            return V("false_success", f"success at t={o['tf']} of {c['t1']}")
        if o["result"] == "max_steps_reached" and (reached or n != self.M):
            return V("false_limit", f"step limit reported after {n}/{self.M} attempts, reached={reached}")
        if o["result"] == "dt_min_reached":
            if job["controller"] != "pid_dtmin":
                return V("false_dtmin", "dt_min_reached reported without dtmin")
        elif failed:
            # without a NaN anywhere near, nothing may fail
            if not nanw:
                return V("false_failure", f"result {o['result']} although nothing failed")
            tl = log["t1"][n - 1] if n else s0
            if not any(lo <= tl + 1e-9 and hi >= log["t0"][n - 1] - 1e-9 for lo, hi in nanw):
                return V("false_failure", f"result {o['result']} on [{log['t0'][n-1]}, {tl}], NaN windows {nanw}")
        if not nanw and job["controller"] != "const" and not np.all(np.isfinite(o["yf"])):
            return V("nan_result", f"final value {o['yf']}")
        if job["controller"] == "pid":
            for k in acc:
                if not np.all(np.isfinite(log["y1"][k])) or not np.all(np.isfinite(log["err"][k])):
                    return V("accepted_nan", f"accepted step {k} has a non-finite error estimate or state")
        return None

    def shrink(self, c):
        import copy
        if self.job["kind"] == "script":
            yield from self.S.shrink_schedule(c)
        else:
            for i in range(2):
                if c["lo"][i] < 1e8:
                    e = copy.deepcopy(c); e["lo"][i] = e["hi"][i] = 1e9; yield e
