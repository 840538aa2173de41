"""C10 Progress meters track each solve and only that solve.

Real code: diffeqsolve, the meters, the host-side meter manager, JAX callbacks.  Simulated: the
terminal (stdout and tqdm are recording stand-ins that can fail), thread scheduling (one thread runs
at a time; the seeded scheduler decides at every vector field evaluation, meter output and lock),
the locks of the meter manager, the step schedule, failures of the solve, crashes in user callbacks.
Each run is a history of several solves (one after another, in one program, batched, nested, or in
concurrent threads) against one process-wide meter manager."""
from __future__ import annotations
import contextlib, copy, logging, sys
import numpy as np
from sim import ref
from sim.core import SUTError, V, digest, rng_for, sut
from . import common as cm

N = 24
H = 3
B = 4

META = dict(
    rule="per job: one meter, nesting mode and adjoint; per run: a history of solves with seeded schedules, failures, thread interleavings and terminal faults",
    measure="distinct (configuration, accept/reject words, outcomes, thread-switch trace) with more than one solve, lane or thread, a failure or an early stop",
    real=["diffrax.diffeqsolve", "diffrax.TextProgressMeter / TqdmProgressMeter", "the meter manager", "adjoints", "equinox loops", "JAX callbacks and XLA CPU programs", "OS threads"],
    stub=["stdout", "tqdm.tqdm (recording stand-in)", "the manager's lock (cooperative)", "step size controller (scripted)", "thread scheduling"],
    assumptions=["CPU backend with synchronous dispatch: host callbacks run on the thread that called the compiled function",
                 "in a batch with a lane that stopped early the meter may lag (only monotonicity and bounds are required there)"],
)

# (mode, meter, controller, adjoint, throw, event)
SPECS = [
    ("seq", "text:0.1", "script", "rec", False, False), ("seq", "tqdm:1", "script", "rec", False, False),
    ("seq", "tqdm:4", "script", "direct", False, True), ("seq", "text:0.02", "script", "forward", False, True),
    ("seq", "custom", "script", "rec", False, True), ("seq", "custom", "pid", "direct", False, False),
    ("seq", "tqdm:3", "pid", "rec:2", False, False), ("seq", "text:0", "pid", "rec", False, False),
    ("seq", "text:0.3", "script", "rec", True, False), ("seq", "tqdm:2", "script", "rec", True, True), ("seq", "custom", "script", "rec", True, False),
    ("vmap", "text:0.1", "script", "rec", False, False), ("vmap", "tqdm:1", "script", "rec", False, False), ("vmap", "tqdm:3", "script", "forward", False, True),
    ("vmap", "text:0.05", "script", "direct", False, True), ("vmapy", "text:0.2", "script", "rec", False, False), ("vmapy", "tqdm:2", "script", "rec", False, False),
    ("vmap2", "tqdm:2", "script", "rec", False, False), ("vmap2", "text:0.1", "script", "rec", False, False),
    ("scan", "tqdm:2", "script", "rec", False, True), ("scan", "text:0.1", "script", "rec", False, False), ("scan", "custom", "script", "rec", False, False),
    ("map", "tqdm:1", "script", "rec", False, False), ("cond", "tqdm:1", "script", "rec", False, False), ("cond", "text:0.1", "script", "rec", False, False),
    ("two", "tqdm:2", "script", "rec", False, False), ("two", "text:0.1", "script", "rec", False, False),
    ("nest", "tqdm:1", "script", "rec", False, False), ("nest", "text:0.2", "script", "rec", False, False),
    ("grad", "text:0.1", "script", "rec", False, False), ("grad", "tqdm:1", "script", "rec:2", False, False), ("grad", "tqdm:2", "script", "direct", False, False),
    ("grad", "text:0.2", "pid", "backsolve", False, False), ("gradvmap", "tqdm:2", "script", "rec:3", False, False), ("gradvmap", "text:0.1", "script", "rec", False, False),
    ("jvp", "tqdm:2", "script", "forward", False, False), ("jvp", "text:0.1", "script", "direct", False, False),
    ("threads", "text:0.1", "script", "rec", False, False), ("threads", "tqdm:1", "script", "rec", False, True), ("threads", "tqdm:2", "script", "rec", True, False),
    ("threads", "text:0.05", "script", "forward", True, False), ("threads", "mixed", "script", "rec", False, False),
]


def jobs(seed, tier):
    rng = rng_for(seed, "C10", "jobs")
    th = tier != "quick"
    specs = list(SPECS)
    if th:
        for _ in range(48):
            mode = ["seq", "vmap", "vmapy", "vmap2", "scan", "map", "cond", "two", "grad", "gradvmap", "threads", "threads"][int(rng.integers(12))]
            meter = ["text:0", "text:0.02", "text:0.17", "tqdm:1", "tqdm:2", "tqdm:7"][int(rng.integers(6))]
            adj = ["rec", "rec:2", "direct"][int(rng.integers(3))]
            specs.append((mode, meter, "script" if mode in ("threads", "vmap2") else ["script", "pid"][int(rng.integers(2))], adj,
                          mode in ("seq", "threads") and bool(rng.integers(2)), mode in ("seq", "vmap", "scan", "threads") and bool(rng.integers(2))))
    out = []
    for i, (mode, meter, ctl, adj, throw, ev) in enumerate(specs):
        out.append(dict(name=f"{i:03d}-{mode}-{meter}-{ctl}-{adj}{'-throw' if throw else ''}{'-event' if ev else ''}", mode=mode, meter=meter, ctl=ctl, adjoint=adj, throw=throw,
                        event=ev, solver=["Euler", "Heun", "Tsit5"][i % 3] if ctl == "script" else "Tsit5",
                        runs=(300 if th else 60) if mode != "threads" else (300 if th else 80), cost=2.0 if mode in ("threads", "nest", "grad", "gradvmap", "two") else 1.0))
    return out


# ------------------------------------------------------------------ the simulated terminal

class Env:
    """What the outside world sees.  One per worker process."""
    def __init__(self):
        self.sched = None
        self.reset()

    def reset(self):
        self.lines = {}          # segment -> text written
        self.bars = []           # tqdm stand-ins, in order of creation
        self.customs = []        # (id, n, buffer) closed user meters
        self.opened = []         # ids of opened user meters
        self.segment = {}        # thread -> label of the solve it is executing
        self.armed = {}          # thread -> [kind, countdown]
        self.gates = 0
        self.inner = 0
        self.odd = []

    def me(self):
        i = self.sched.me() if self.sched is not None else None
        return "main" if i is None else i

    def seg(self):
        return self.segment.get(self.me(), "?")

    def tick(self, kind):
        """A point where the environment may switch threads or inject a fault."""
        if self.sched is not None:
            self.sched.yield_point(kind)
        a = self.armed.get(self.me())
        if a and a[0] == kind:
            a[1] -= 1
            if a[1] == 0:
                raise OSError("injected: no space left on device") if kind == "io" else RuntimeError("injected crash")


ENV = Env()


class FakeOut:
    encoding = "utf-8"
    def write(self, s):
        ENV.tick("io")
        k = ENV.seg()
        ENV.lines[k] = ENV.lines.get(k, "") + s
        return len(s)
    def flush(self): pass
    def isatty(self): return False


class FakeTqdm:
    def __init__(self, *a, total=None, initial=0, **kw):
        ENV.tick("io")
        self.total, self.n, self.closed, self.seg, self.thread = total, initial, 0, ENV.seg(), ENV.me()
        self.shown = [self._percent()]
        ENV.bars.append(self)

    def _percent(self):
        return 100.0 * float(self.n) / float(self.total or 100)

    def _show(self):
        if ENV.me() != self.thread:
            ENV.odd.append(f"the bar of solve {self.seg!r} was updated by solve {ENV.seg()!r}")
        if self.closed:
            ENV.odd.append(f"the bar of solve {self.seg!r} was updated after it was closed")
        self.shown.append(self._percent())

    def update(self, n=1):
        ENV.tick("io")
        self.n += n
        self._show()

    def refresh(self, *a, **k):
        self._show()

    def close(self):
        ENV.tick("io")
        if ENV.me() != self.thread:
            ENV.odd.append(f"the bar of solve {self.seg!r} was closed by solve {ENV.seg()!r}")
        self.shown.append(self._percent())
        self.closed += 1

    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def set_description(self, *a, **k): pass
    set_postfix = set_description_str = set_postfix_str = display = clear = set_description


@contextlib.contextmanager
def terminal():
    old = sys.stdout
    sys.stdout = FakeOut()
    try:
        yield
    finally:
        sys.stdout = old


def align(a, b, tol):
    """Whether two displays show the same sequence (repeating a value changes nothing)."""
    i = j = 0
    near = lambda x, y: abs(x - y) <= tol
    if not near(a[0], b[0]): return False
    while i + 1 < len(a) or j + 1 < len(b):
        if i + 1 < len(a) and j + 1 < len(b) and near(a[i + 1], b[j + 1]): i += 1; j += 1
        elif i + 1 < len(a) and near(a[i + 1], b[j]): i += 1
        elif j + 1 < len(b) and near(a[i], b[j + 1]): j += 1
        else: return False
    return True


# ------------------------------------------------------------------ expected output

def expect(meter, P, done):
    """P: (iterations, lanes) progress after every loop iteration.  -> displayed percentages, or
    None where a comparison is within rounding of a threshold."""
    kind, _, arg = meter.partition(":")
    out = [0.0]
    if kind == "text":
        mi, last, bar = float(arg), np.zeros(P.shape[1]), 0.0
        for k, p in enumerate(P):
            with np.errstate(invalid="ignore"):
                if np.any(np.abs(p - last - mi) < 1e-7) and mi > 0:
                    return None
                show = np.all((p - last > mi) | (p == 1))
            if show:
                bar = p.min()
                out.append(100 * bar)
                last = np.where(done[k], last, p)
        if bar != 1:
            out.append(100.0)
        return out
    R = int(arg)
    for k, p in enumerate(P):
        if k % R == 0:
            out.append(100 * p.min())
    return out + [100.0]


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, optimistix as optx, diffrax as dfx, tqdm
        from jax.experimental import io_callback
        from sim import sched, system as S
        jax.config.update("jax_cpu_enable_async_dispatch", False)
        logging.getLogger("jax").setLevel(logging.CRITICAL)   # (injected failures are logged there)
        self.job, self.S, self.jax, self.sched = job, S, jax, sched
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] == "tqdm" and hasattr(m, "tqdm") and not isinstance(m.tqdm, type(sys)):
                m.tqdm = FakeTqdm
        sched.install_locks(ENV)
        mode = job["mode"]

        class RecMeter(dfx.AbstractProgressMeter):
            def init(self):
                def cb():
                    ENV.opened.append(ENV.seg())
                    return np.array(len(ENV.opened), np.int32)
                return io_callback(cb, jax.ShapeDtypeStruct((), jnp.int32)), jnp.array(0), jnp.zeros(N + 4)

            def step(self, state, progress):
                i, n, buf = state
                return i, n + 1, buf.at[n].set(progress)

            def close(self, state):
                io_callback(lambda i, n, b: ENV.customs.append((ENV.seg(), int(i), int(n), np.array(b))), None, *jax.lax.stop_gradient(state))

        def make_meter(spec):
            kind, _, arg = spec.partition(":")
            return {"text": lambda: dfx.TextProgressMeter(float(arg)), "tqdm": lambda: dfx.TqdmProgressMeter(int(arg)), "custom": RecMeter, "none": dfx.NoProgressMeter}[kind]()

        def gate(t):
            ENV.gates += 1
            ENV.tick("crash")
            return np.zeros((), np.asarray(t).dtype)

        def inner_done(x):
            ENV.inner += 1
            return np.zeros((), np.float64)

        adjoint = S.make_adjoint(job["adjoint"])
        solver = getattr(dfx, job["solver"])()

        def solve(x, meter, gated=True, throw=False, nest=None):
            def vf(t, y, a):
                f = -a["p"][0] * y + jnp.cos(a["p"][1] * t)
                if gated and mode == "threads":
                    f = f + jax.pure_callback(gate, jax.ShapeDtypeStruct((), jnp.float64), t)
                if nest is not None:
                    s = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Euler(), 0.0, 1.0, 0.25, y, progress_meter=nest, throw=False, adjoint=dfx.ForwardMode(), max_steps=8)
                    f = f + 1e-3 * s.ys[0]
                    io_callback(inner_done, jax.ShapeDtypeStruct((), jnp.float64), s.ys[0])
                return f
            d = jnp.where(x["t0"] < x["t1"], 1.0, -1.0)
            if job["ctl"] == "script": ctl = S.ScriptedController(**x["sc"], with_jump=False, with_code=True)
            else: ctl = S.Recorder(dfx.PIDController(rtol=1e-2, atol=1e-3), N)
            event = dfx.Event(lambda t, y, args, **kw: args["d"] * (t - args["te"]) >= 0) if job["event"] else None
            plain = job["adjoint"] == "backsolve"
            s = dfx.diffeqsolve(dfx.ODETerm(vf), solver, x["t0"], x["t1"], d * x["dt0"], x["y0"], dict(p=x["p"], te=x["te"], d=d),
                                saveat=dfx.SaveAt(t1=True) if plain else dfx.SaveAt(ts=x["ts"], t1=True, controller_state=True), stepsize_controller=ctl, adjoint=adjoint, max_steps=N,
                                throw=throw, event=event, progress_meter=make_meter(meter))
            return dict(ts=s.ts, ys=s.ys, result=s.result._value, n=s.stats["num_steps"], log=None if plain else s.controller_state[1])
        nest = {"nest": job["meter"]}.get(mode)
        nestm = make_meter(nest) if nest else None
        nonest = dfx.NoProgressMeter() if nest else None
        self.ref = jax.jit(lambda x: solve(x, "none", gated=False, nest=nonest))
        if job["adjoint"] == "backsolve":   # the forward pass of a twin that can report its history
            adj0 = adjoint

            def ref_(x):
                nonlocal adjoint
                adjoint = dfx.RecursiveCheckpointAdjoint()
                job["adjoint"] = "rec"
                try: return solve(x, "none")
                finally: adjoint = adj0; job["adjoint"] = "backsolve"
            self.ref = jax.jit(ref_)
        meter, throw = job["meter"], job["throw"]
        slim = lambda o: {k: o[k] for k in ("ts", "ys", "result", "n")}
        one = lambda x: slim(solve(x, meter, throw=throw, nest=nestm))

        plainadj = job["adjoint"] == "backsolve"

        def gradient(x, meter):
            def loss(y0, t1):
                o = solve(dict(x, y0=y0, t1=t1), meter)
                return jnp.sum(jnp.where(jnp.isfinite(o["ys"]), o["ys"], 0.0)), slim(o)
            if mode == "jvp":
                pr, tg, o = jax.jvp(loss, (x["y0"], x["t1"]), (1.0, 0.5), has_aux=True)
                return dict(o, g=tg)
            # (BacksolveAdjoint does not support differentiation with respect to the times.)
            g, o = jax.grad(loss, argnums=(0,) if plainadj else (0, 1), has_aux=True)(x["y0"], x["t1"])
            return dict(o, g=g)

        if mode == "threads":
            meters = ["text:0.1", "tqdm:1", "tqdm:2"] if meter == "mixed" else [meter]
            self.meters = meters
            self.fns = [jax.jit(lambda x, m=m: slim(solve(x, m, throw=throw))) for m in meters]
        elif mode in ("seq", "nest"): self.fn = jax.jit(one)
        elif mode == "vmap": self.fn = jax.jit(jax.vmap(one))
        elif mode == "vmapy": self.fn = jax.jit(lambda xs: jax.vmap(lambda y: one(dict(jax.tree_util.tree_map(lambda v: v[0], xs), y0=y)))(xs["y0"]))
        elif mode == "vmap2": self.fn = jax.jit(lambda xs: jax.vmap(jax.vmap(one))(jax.tree_util.tree_map(lambda v: v.reshape(2, 2, *v.shape[1:]), xs)))
        elif mode == "scan": self.fn = jax.jit(lambda xs: jax.lax.scan(lambda c, x: (c, one(x)), 0, xs)[1])
        elif mode == "map": self.fn = jax.jit(lambda xs: jax.lax.map(one, xs))
        elif mode == "two": self.fn = jax.jit(lambda xs: [one(jax.tree_util.tree_map(lambda v: v[i], xs)) for i in range(2)])
        elif mode == "cond":
            self.fn = jax.jit(lambda b, x: jax.lax.cond(b, one, lambda x: jax.tree_util.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), jax.eval_shape(one, x)), x))
        elif mode in ("grad", "jvp"):
            self.fn = jax.jit(lambda x: gradient(x, meter))
            self.gref = jax.jit(lambda x: gradient(x, "none"))
        elif mode == "gradvmap":
            def g(xs, meter):
                def loss(y0):
                    o = jax.vmap(lambda x: solve(x, meter))(dict(xs, y0=y0))
                    return jnp.sum(jnp.where(jnp.isfinite(o["ys"]), o["ys"], 0.0)), slim(o)
                gr, o = jax.grad(loss, has_aux=True)(xs["y0"])
                return dict(o, g=gr)
            self.fn = jax.jit(lambda xs: g(xs, meter))
            self.gref = jax.jit(lambda xs: g(xs, "none"))
        case = self.gen(rng_for("build"), 0)
        case["crash"], case["threads"] = None, case.get("threads") and case["threads"][:1]
        for k in range(len(getattr(self, "fns", ()))):   # (compile everything before threads interleave)
            case["fn"], case["threads"] = [k], case["threads"][:1]
            self.execute(case)
        self.execute(case)

    # ------------------------------------------------------------------ cases
    def _gen_solve(self, rng):
        job = self.job
        t0, t1, d = cm.gen_interval(rng)
        if rng.random() < 0.06 and job["ctl"] == "script" and job["mode"] not in ("nest",): t1 = t0
        span = abs(t1 - t0) or 1.0
        c = dict(t0=t0, t1=t1, y0=float(np.round(rng.normal(), 3)), p=[float(x) for x in np.round(rng.uniform(0.3, 2, 2), 3)])
        c.update(self.S.gen_schedule(rng, N, span))
        if job["mode"] == "nest":
            c["dt"] = [max(x, 0.15 * span) for x in c["dt"]]
        c["code"] = [0] * N
        kind = str(rng.choice(["plain", "plain", "limit", "code"]))
        if kind == "limit": c["dt"] = [x * 0.05 for x in c["dt"]]
        if kind == "code": c["code"][int(rng.integers(N // 2))] = int(rng.integers(1, 4))
        c["kind"] = kind
        c["te"] = float(t0 + d * span * (rng.uniform(0.02, 0.97) if rng.random() < 0.5 else 5.0))
        c["tss"] = sorted((float(t0 + (t1 - t0) * u) for u in np.round(rng.random(3), 3)), reverse=d < 0)
        return c

    def gen(self, rng, i):
        mode = self.job["mode"]
        n = {"seq": H, "nest": 1, "two": 2, "grad": 2, "jvp": 2, "cond": H}.get(mode, B)
        if mode == "scan" or mode == "map": n = H
        c = dict(solves=[self._gen_solve(rng) for _ in range(n)], crash=None)
        if mode in ("vmap", "gradvmap", "vmap2"):
            if rng.random() < 0.5:   # otherwise one lane nearly always stops early
                for s in c["solves"]: s["kind"], s["te"], s["code"] = "plain", s["te"] + 50 * (s["te"] - s["t0"]), [0] * N
        if mode == "cond": c["branch"] = [bool(x) for x in rng.random(n) < 0.6]
        if mode == "threads":
            K = int(rng.integers(2, 5))
            c["threads"] = [[int(rng.integers(n)) for _ in range(int(rng.integers(1, 3)))] for _ in range(K)]
            c["fn"] = [int(rng.integers(8)) for _ in range(K)]
            style = rng.random()
            m = 400
            if style < 0.4: c["choices"] = [int(x) for x in rng.integers(0, 12, m)]
            elif style < 0.7:   # bursts: a thread keeps running for a while
                ch = []
                while len(ch) < m: ch += [int(rng.integers(0, 12))] * int(rng.integers(1, 12))
                c["choices"] = ch[:m]
            else: c["choices"] = [int(x) for x in (np.arange(m) % max(1, K + int(rng.integers(-1, 2))))]
            if rng.random() < 0.4:
                c["crash"] = dict(thread=int(rng.integers(K)), kind=str(rng.choice(["io", "crash"])), after=int(rng.integers(1, 12)))
        elif mode in ("seq",) and rng.random() < 0.25 and self.job["meter"] != "custom":
            c["crash"] = dict(solve=int(rng.integers(n)), kind="io", after=int(rng.integers(1, 8)))
        return c

    def _x(self, c):
        f = lambda x: np.asarray(x, float)
        return dict(t0=f(c["t0"]), t1=f(c["t1"]), dt0=f(c["dt0"]), y0=f(c["y0"]), p=f(c["p"]), te=f(c["te"]), ts=f(c["tss"]), sc=self.S.schedule_arrays(c, N))

    def _stack(self, xs):
        return self.jax.tree_util.tree_map(lambda *z: np.stack(z), *xs)

    def _np(self, o):
        return self.jax.tree_util.tree_map(np.asarray, o)

    # ------------------------------------------------------------------ execution
    def execute(self, c):
        S, mode = self.S, self.job["mode"]
        xs = [self._x(s) for s in c["solves"]]
        ENV.reset()
        ENV.sched = None
        refs = [self._np(sut(lambda: self.ref(x))) for x in xs]
        logs = [S.read_log(r["log"]) for r in refs]
        ENV.reset()
        base_live = self._live()
        outs, errors = [], []

        def call(label, fn, *a):
            ENV.segment[ENV.me()] = label
            try:
                return self._np(fn(*a)), None
            except SUTError:
                raise
            except Exception as e:  # a failing solve with throw=True, or an injected crash
                return None, f"{type(e).__name__}"
        trace = []
        with terminal():
            if mode == "threads":
                ENV.sched = self.sched.Scheduler(c["choices"])
                cr = c["crash"]
                if cr: ENV.armed[cr["thread"]] = [cr["kind"], cr["after"]]

                def body(k):
                    fn = self.fns[c["fn"][k] % len(self.fns)]
                    return lambda: [call((k, j), fn, xs[s]) for j, s in enumerate(c["threads"][k])]
                try:
                    res = ENV.sched.run([body(k) for k in range(len(c["threads"]))])
                except self.sched.Deadlock as e:
                    raise SUTError(f"deadlock: {e}") from e
                finally:
                    trace = list(ENV.sched.trace)
                    ENV.sched = None
                for k, r in enumerate(res):
                    if r[0] == "error": raise SUTError(f"thread {k}: {r[1]}")
                    outs.append(r[1])
            elif mode in ("seq", "nest", "cond", "grad", "jvp"):
                for j, x in enumerate(xs):
                    cr = c["crash"]
                    ENV.armed = {"main": [cr["kind"], cr["after"]]} if cr and cr.get("solve") == j else {}
                    outs.append(call(j, *((self.fn, c["branch"][j], x) if mode == "cond" else (self.fn, x))))
                    ENV.armed = {}
            else:
                outs.append(call(0, self.fn, self._stack(xs)))
        o = dict(refs=[{k: r[k] for k in ("ts", "ys", "result", "n")} for r in refs], logs=logs, outs=outs, lines=dict(sorted(((str(k), v) for k, v in ENV.lines.items()))), odd=list(ENV.odd),
                 bars=[dict(seg=str(b.seg), shown=list(b.shown), closed=b.closed) for b in ENV.bars], customs=[(str(a), b, n, list(p)) for a, b, n, p in ENV.customs],
                 opened=[str(s) for s in ENV.opened], live=self._live() - base_live, trace=[[str(a), b] for a, b in trace], inner=ENV.inner)
        if mode in ("grad", "jvp"): o["gref"] = [self._np(sut(lambda: self.gref(x)))["g"] for x in xs]
        if mode == "gradvmap": o["gref"] = self._np(sut(lambda: self.gref(self._stack(xs))))["g"]
        return o

    def _live(self):
        import diffrax._progress_meter as m
        return len(getattr(getattr(m, "_progress_meter_manager", None), "bars", ()))

    # ------------------------------------------------------------------ checking
    def _progress(self, s, log):
        """Progress after every attempt, from the recorded history."""
        a, b = (s["t0"], s["t1"]) if s["t0"] <= s["t1"] else (-s["t0"], -s["t1"])
        return np.array([(min(t, b) - a) / (b - a) for t in log["tprev"]])

    def _batch(self, solves, logs, refs):
        """(iterations, lanes) progress, per iteration whether a lane had finished before, and
        whether all lanes ran to the end."""
        ps = [self._progress(s, l) for s, l in zip(solves, logs)]
        n = max(len(p) for p in ps)
        P = np.zeros((n, len(ps)))
        done = np.zeros((n, len(ps)), bool)
        full = True
        for j, p in enumerate(ps):
            P[:len(p), j] = p
            P[len(p):, j] = p[-1] if len(p) else 0.0
            done[len(p):, j] = True
            full &= len(p) > 0 and p[-1] == 1.0 or n == len(p)
        return P, done, full

    def _compare(self, want, shown, meter, st):
        """One bar against the expected sequence."""
        if not shown:
            return "nothing was displayed"
        tol = 0.0051 if meter.startswith("text") or meter.startswith("tqdm") else 1e-9
        if shown[0] != 0: return f"the display starts at {shown[0]}"
        if shown[-1] != 100: return f"the display ends at {shown[-1]}"
        if any(not (0 <= x <= 100) for x in shown): return f"progress outside 0..100%: {shown}"
        if any(b < a for a, b in zip(shown, shown[1:])): return f"progress goes backwards: {shown}"
        if want is None:
            st.probe("threshold_ties")
            return None
        if not align(shown, want, 1.2 * tol):
            return f"displayed {[round(float(x), 2) for x in shown]}, but the solve progressed as {[round(float(x), 2) for x in want]}"
        return None

    def _text(self, s):
        try:
            ls = s.split("\n")
            if ls[-1] != "": return None
            return [float(l.removesuffix("%")) for l in ls[:-1] if l.endswith("%") or 1 / 0]
        except Exception:
            return None

    def _results(self, c, o, out, idx, st):
        """Numerical results with the meter against results without it."""
        for k in ("n", "result"):
            if int(out[k]) != int(o["refs"][idx][k]): return V("result", f"{k} is {out[k]} with the meter, {o['refs'][idx][k]} without")
        if self.job["adjoint"] == "backsolve":
            a, b = np.asarray(out["ys"][-1]), np.asarray(o["refs"][idx]["ys"][-1])
        else:
            a, b = np.concatenate([out["ts"], out["ys"]]), np.concatenate([o["refs"][idx]["ts"], o["refs"][idx]["ys"]])
        if not np.allclose(a, b, rtol=1e-10, atol=1e-12, equal_nan=True): return V("result", f"saved values {a} with the meter, {b} without")
        return None

    def check(self, c, o, st):
        mode, job = self.job["mode"], self.job
        refs, logs = o["refs"], o["logs"]
        for s, r, l in zip(c["solves"], refs, logs):
            if l["n"] != int(r["n"]): return V("history", f"{l['n']} recorded attempts, {int(r['n'])} reported")
            st.steps += l["n"]; st.sim_time += abs(s["t1"] - s["t0"])
            st.fault("rejected_step", int(np.sum(~l["keep"])))
            if int(r["result"]): st.fault("solve_stops_early")
        words = [cm.pattern(l) for l in logs]
        st.nontrivial.add(digest([job["name"], words, [int(r["result"]) for r in refs], o["trace"], str(c["crash"])]))
        if o["odd"]: return V("crosstalk", o["odd"][0])
        ENV_ = o
        import diffrax as dfx
        bad = lambda idx: int(refs[idx]["result"]) not in (dfx.RESULTS.successful._value, dfx.RESULTS.event_occurred._value)
        aborted = 0

        if mode in ("seq", "threads", "grad", "jvp", "cond", "nest"):
            if mode == "threads":
                units = [((k, j), s, out, self.meters[c["fn"][k] % len(self.meters)]) for k, th in enumerate(c["threads"]) for j, (s, out) in enumerate(zip(th, o["outs"][k]))]
            else:
                units = [(j, j, out, job["meter"]) for j, out in enumerate(o["outs"])]
            for label, idx, (out, err), meter in units:
                lines = o["lines"].get(str(label), "")
                bars = [b for b in o["bars"] if b["seg"] == str(label)]
                cust = [x for x in o["customs"] if x[0] == str(label)]
                opened = o["opened"].count(str(label))
                tag = f"solve {label} (attempts {words[idx]!r}, result {int(refs[idx]['result'])}, [{c['solves'][idx]['t0']}, {c['solves'][idx]['t1']}])"
                hit = c["crash"] and (label == c["crash"].get("solve") or (mode == "threads" and label[0] == c["crash"]["thread"]))
                want_raise = job["throw"] and bad(idx)
                if mode == "cond" and not c["branch"][idx]:
                    if lines or bars or opened: return V("spurious", f"{tag}: not executed, but a bar was shown")
                    continue
                if err is not None and not want_raise:
                    if not hit: return V("exception", f"{tag} raised {err}")
                    aborted += 1
                    st.fault("terminal_" + c["crash"]["kind"])
                    continue
                if err is None and want_raise: return V("no_raise", f"{tag} with throw=True did not raise")
                if err is not None: st.fault("solve_raises")
                if err is None and not hit or err is None:
                    v = self._results(c, o, out, idx, st)
                    if v: v["msg"] = f"{tag}: {v['msg']}"; return v
                if mode in ("grad", "jvp"):
                    g, r = np.asarray(out["g"]), np.asarray(o["gref"][idx])
                    if not np.allclose(g, r, rtol=1e-9, atol=1e-10): return V("gradient", f"{tag}: gradient {g} with the meter, {r} without")
                if hit and want_raise:
                    aborted += 1      # (either failure may have come first)
                    continue
                P, done, _ = self._batch([c["solves"][idx]], [logs[idx]], [refs[idx]])
                if meter == "custom":
                    if opened != 1: return V("open", f"{tag}: the meter was initialised {opened} times")
                    if len(cust) != 1: return V("close", f"{tag}: the meter was closed {len(cust)} times")
                    got = np.array(cust[0][3][:cust[0][2]])
                    if len(got) != len(P) or not np.allclose(got, P[:, 0], atol=1e-12): return V("progress", f"{tag}: the meter was told {got.tolist()}, the solve progressed as {P[:, 0].tolist()}")
                    continue
                want = expect(meter, P, done)
                if meter.startswith("tqdm"):
                    if mode == "nest":
                        inner = expect(meter, np.array([[0.25], [0.5], [0.75], [1.0]]), np.zeros((4, 1), bool))
                        if len(bars) != 1 + o["inner"]: return V("open", f"{tag}: {len(bars)} bars for {o['inner']} inner solves and 1 outer solve")
                        st.probe("inner_solves", o["inner"])
                        if bars and o["inner"]:
                            rest = list(bars)
                            m = [b for b in rest if self._compare(want, b["shown"], meter, st) is None]
                            if not m: return V("progress", f"{tag}: no bar shows the outer solve: {[self._compare(want, b['shown'], meter, st) for b in rest][:2]}")
                            rest.remove(m[0])
                            for b in rest:
                                if b["closed"] != 1: return V("close", f"{tag}: the bar of an inner solve was closed {b['closed']} times")
                                e = self._compare(inner, b["shown"], meter, st)
                                if e: return V("progress", f"{tag}: inner solve: {e}")
                            continue
                    if lines.strip(): return V("output", f"{tag} printed {lines!r}")
                    if len(bars) != 1: return V("open", f"{tag} opened {len(bars)} bars")
                    if bars[0]["closed"] != 1: return V("close", f"{tag}: its bar was closed {bars[0]['closed']} times")
                    e = self._compare(want, bars[0]["shown"], meter, st)
                else:
                    if bars: return V("open", f"{tag} opened {len(bars)} bars")
                    shown = self._text(lines)
                    if shown is None: return V("output", f"{tag} printed {lines!r}")
                    if mode == "nest":
                        inner = expect(meter, np.array([[0.25], [0.5], [0.75], [1.0]]), np.zeros((4, 1), bool))
                        if want is not None and inner is not None:
                            full = sorted(np.round(want + inner * o["inner"], 2))
                            if len(full) != len(shown) or not np.allclose(full, sorted(shown), atol=0.0101):
                                return V("progress", f"{tag}: printed {shown}, expected the lines of {o['inner']} inner solves {inner} and one outer solve {want}")
                        continue
                    e = self._compare(want, shown, meter, st)
                if e: return V("progress", f"{tag}: {e}")
        else:
            (out, err), = o["outs"]
            if err is not None: return V("exception", f"raised {err}")
            meter = job["meter"]
            n = len(c["solves"])
            if mode in ("vmap", "vmap2", "gradvmap", "vmapy"):
                group = [list(range(n))]
                if mode == "vmapy": group = [[0]]
            else:
                group = [[i] for i in range(n)]
            # results
            if mode == "two": flat = list(out)
            else:
                red = (lambda v, i: v.reshape(n, *v.shape[2:])[i]) if mode == "vmap2" else (lambda v, i: v[i])
                flat = [{k: red(out[k], i) for k in ("ts", "ys", "result", "n")} for i in range(n)]
            for i in range(n if mode != "vmapy" else 1):
                v = self._results(c, o, flat[i], i, st)
                if v: v["msg"] = f"element {i}: {v['msg']}"; return v
            if mode == "gradvmap" and not np.allclose(out["g"], o["gref"], rtol=1e-9, atol=1e-10): return V("gradient", f"gradient {out['g']} with the meter, {o['gref']} without")
            wants = []
            for g in group:
                P, done, full = self._batch([c["solves"][i] for i in g], [logs[i] for i in g], [refs[i] for i in g])
                wants.append((expect(meter, P, done) if meter != "custom" else P, full or len(g) == 1, P))
            tag = f"{mode} over solves with attempts {words}, results {[int(r['result']) for r in refs]}"
            if meter == "custom":
                if len(o["opened"]) != n or len(o["customs"]) != n: return V("open", f"{tag}: {len(o['opened'])} meters opened, {len(o['customs'])} closed")
                for k, (x, (w, _, P)) in enumerate(zip(o["customs"], wants)):
                    if x[2] != len(P) or not np.allclose(x[3][:x[2]], P[:, 0], atol=1e-12): return V("progress", f"{tag}: meter {k} was told {x[3][:x[2]]}, expected {P[:, 0]}")
                return None
            lines = o["lines"].get("0", "")
            if meter.startswith("tqdm"):
                if lines.strip(): return V("output", f"{tag} printed {lines!r}")
                if len(o["bars"]) != len(group): return V("open", f"{tag}: {len(o['bars'])} bars were opened for {len(group)} solves")
                for b in o["bars"]:
                    if b["closed"] != 1: return V("close", f"{tag}: a bar was closed {b['closed']} times")
                got = [b["shown"] for b in o["bars"]]
            else:
                got = self._text(lines)
                if got is None: return V("output", f"{tag} printed {lines!r}")
                if mode == "two":
                    if all(w[0] is not None for w in wants):
                        full = sorted(np.round(wants[0][0] + wants[1][0], 2))
                        if len(full) != len(got) or not np.allclose(full, sorted(got), atol=0.0101): return V("progress", f"{tag}: printed {got}, expected the lines {wants[0][0]} and {wants[1][0]}")
                    return None
                if len(group) > 1:
                    cuts = [i for i, x in enumerate(got) if x == 0 and (i == 0 or got[i - 1] == 100)]
                    if len(cuts) != len(group): return V("open", f"{tag}: the output {got} is not that of {len(group)} solves")
                    got = [got[a:b] for a, b in zip(cuts, cuts[1:] + [len(got)])]
                else: got = [got]
            if mode == "two":    # (the order within one program is not specified)
                errs = [[self._compare(w[0], g, meter, st) for w in wants] for g in got]
                if not ((errs[0][0] is None and errs[1][1] is None) or (errs[0][1] is None and errs[1][0] is None)):
                    return V("progress", f"{tag}: bars show {got}, expected {[w[0] for w in wants]}")
                return None
            for k, (g, (w, full, P)) in enumerate(zip(got, wants)):
                e = self._compare(w if full else None, g, meter, st)
                if e: return V("progress", f"{tag}: solve {k}: {e}")
        if o["live"] > aborted: return V("leak", f"{o['live']} bars are still registered after every solve has ended ({aborted} were aborted by injected crashes)")
        return None

    def shrink(self, c):
        S = self.S
        if c.get("crash"):
            d = copy.deepcopy(c); d["crash"] = None; yield d
        if self.job["mode"] == "threads":
            for k in range(len(c["threads"])):
                if len(c["threads"]) > 1 and not c["crash"]:
                    d = copy.deepcopy(c); del d["threads"][k]; del d["fn"][k]; yield d
                if len(c["threads"][k]) > 1:
                    d = copy.deepcopy(c); d["threads"][k] = d["threads"][k][:1]; yield d
            ch = c["choices"]
            n = len(ch)
            while n and ch[n - 1] == 0: n -= 1
            for size in (n // 2, n // 4, n // 8, 4, 1):
                if size:
                    for lo in range(0, n, size):
                        if any(ch[lo:lo + size]):
                            d = copy.deepcopy(c); d["choices"][lo:lo + size] = [0] * min(size, n - lo); yield d
                    d = copy.deepcopy(c); d["choices"] = ch[:max(0, n - size)]; yield d
        if self.job["mode"] in ("seq", "cond", "grad", "jvp"):
            for k in range(len(c["solves"])):
                if len(c["solves"]) > 1 and not c["crash"]:
                    d = copy.deepcopy(c); del d["solves"][k]
                    if "branch" in d: del d["branch"][k]
                    yield d
        for k in range(len(c["solves"])):
            for s in S.shrink_schedule(c["solves"][k]):
                d = copy.deepcopy(c); d["solves"][k] = s; yield d
