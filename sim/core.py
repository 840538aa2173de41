"""Simulation driver: one VERIF_SEED -> one exactly repeatable batch of simulated runs.

The parent process never imports JAX.  It asks the check module for a list of *jobs*
(structural configurations of the system under simulation), hands them to worker processes,
gathers per-run records, and turns the first violation into a minimised replay file which it
re-executes in a fresh process before printing the VIOLATION line.

Nothing here reads a clock to make a decision about *what* is simulated: clocks are only used
for the wall-time fields of the evidence and for the hang watchdog.
"""
from __future__ import annotations
import argparse, hashlib, importlib, json, multiprocessing as mp, multiprocessing.connection
import os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RUN_HANG_S = 150.0      # one simulated run normally takes milliseconds
BUILD_HANG_S = 420.0    # one configuration normally traces+compiles in seconds
GLOBAL_STOP_S = 800.0   # stop handing out jobs (quick tier only)

ENV = {
    "JAX_PLATFORMS": "cpu",
    "JAX_ENABLE_X64": "1",
    "PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED", "0"),
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false "
                 "intra_op_parallelism_threads=1",
    "EQX_ON_ERROR": "raise",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


class SUTError(Exception):
    """An exception that escaped from the system under test during a legitimate run."""


def sut(fn, *args, **kwargs):
    """Every call into diffrax goes through here, so that an exception escaping from the
    system under test is told apart from an exception in the harness."""
    try:
        return fn(*args, **kwargs)
    except SUTError:
        raise
    except Exception as e:  # noqa: BLE001
        msg = str(e).strip().splitlines()
        raise SUTError(f"{type(e).__name__}: {msg[0][:300] if msg else ''}") from e


class V(dict):
    """A violation: {'tag': class used for minimisation, 'msg': human text}."""
    def __init__(self, tag, msg):
        super().__init__(tag=tag, msg=str(msg)[:2000])


def seed_for(*parts) -> int:
    h = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).digest()
    return int.from_bytes(h[:8], "little")


def rng_for(*parts):
    import numpy as np
    return np.random.default_rng(seed_for(*parts))


def digest(obj) -> str:
    """Deterministic digest of nested observations (event log of one run)."""
    import numpy as np
    h = hashlib.sha256()

    def go(x):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode()); go(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for v in x: go(v)
            h.update(b"]")
        elif isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(x).encode())
    go(obj)
    return h.hexdigest()[:16]


class Stats:
    """Per-job counters, merged by the parent into the evidence file."""
    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.samples = []
        self.log = hashlib.sha256()

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + int(n)

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + int(n)

    def as_dict(self):
        return dict(runs=self.runs, nontrivial=sorted(self.nontrivial), faults=self.faults,
                    probes=self.probes, sim_time=self.sim_time, steps=self.steps,
                    samples=self.samples[:2], log=self.log.hexdigest()[:16])


# ------------------------------------------------------------------------- worker side

def _load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def _setup_paths():
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)


def _one(runner, case, stats=None):
    """Execute one simulated run; -> (violation | None, observation)"""
    try:
        obs = runner.execute(case)
    except SUTError as e:
        return V("exception", e), None
    try:
        v = runner.check(case, obs, stats if stats is not None else Stats())
    except Exception as e:  # noqa: BLE001
        # Never happens on well-formed observations: the outputs have the wrong structure.
        v = V("malformed", f"the observed outputs cannot be interpreted: {type(e).__name__}: {e}")
    return v, obs


def _minimise(runner, case, v, budget_s=25.0, max_tries=600):
    """Greedy shrinking: keep any simpler case on which the same class of violation persists."""
    t_end = time.time() + budget_s
    tries, steps, progress = 0, 0, True
    best, best_v = case, v
    while progress and time.time() < t_end and tries < max_tries:
        progress = False
        for cand in runner.shrink(best):
            tries += 1
            if time.time() > t_end or tries > max_tries:
                break
            try:
                w, _ = _one(runner, cand)
            except Exception:  # an ill-formed candidate: not a simplification
                continue
            if w is not None and w["tag"] == v["tag"]:
                best, best_v, progress, steps = cand, w, True, steps + 1
                break
    return best, best_v, dict(tries=tries, accepted=steps)


def run_job(prop, job, seed, emit):
    mod = _load(prop)
    stats = Stats()
    t_build = time.time()
    emit(("phase", "build", None))
    try:
        runner = mod.Runner(job)
    except SUTError as e:
        return dict(stats=stats.as_dict(), violation=V("exception", f"while building: {e}"),
                    case=None, shrink=None)
    start, n = job.get("start", 0), job["runs"]
    t_run = time.time()
    for i in range(start, start + n):
        rng = rng_for(seed, prop, job["name"], i)
        case = runner.gen(rng, i)
        emit(("phase", "run", case))
        v, obs = _one(runner, case, stats)
        stats.runs += 1
        stats.log.update(digest([case, obs]).encode())
        if i == start:
            stats.samples.append(dict(job=job["name"], case=_brief(case)))
        if v is not None:
            known = getattr(mod, "known", lambda job, case, v: None)(job, case, v)
            if known:
                stats.probe("known_finding:" + known)
                continue
            emit(("phase", "minimise", None))
            case2, v2, sh = _minimise(runner, case, v)
            return dict(stats=stats.as_dict(), violation=v2, case=case2, shrink=sh)
    emit(("timing", t_run - t_build, time.time() - t_run))
    extra = getattr(runner, "finish", None)
    if extra is not None:
        v = extra(stats)
        if v is not None:
            return dict(stats=stats.as_dict(), violation=v, case=dict(aggregate=True), shrink=None)
    return dict(stats=stats.as_dict(), violation=None)


def _brief(x, n=24):
    if isinstance(x, dict): return {k: _brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and len(x) > n: return [_brief(v) for v in x[:n]] + [f"...({len(x)})"]
    if isinstance(x, (list, tuple)): return [_brief(v) for v in x]
    if isinstance(x, float): return float(f"{x:.6g}")
    return x


def _worker(conn, prop, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _setup_paths()
    import warnings
    warnings.simplefilter("ignore")
    try:
        import diffrax
        f = os.path.realpath(diffrax.__file__)
        if not f.startswith(os.path.realpath(REPO) + "/"):
            conn.send(("fatal", f"diffrax imported from {f}, expected {REPO}"))
            return
    except Exception:
        conn.send(("import_error", traceback.format_exc()[-1500:]))
        return
    conn.send(("ready",))
    while True:
        job = conn.recv()
        if job is None:
            return
        try:
            out = run_job(prop, job, seed, conn.send)
            conn.send(("done", job, out))
        except Exception:
            conn.send(("error", job, traceback.format_exc()[-3000:]))
        import gc, jax
        jax.clear_caches()
        gc.collect()


# ------------------------------------------------------------------------- parent side

def replay_main(path):
    """Re-executes a replay file.  Exit 1 + REPRODUCED line if the violation is still there."""
    with open(path) as f:
        r = json.load(f)
    _setup_paths()
    import warnings
    warnings.simplefilter("ignore")
    mod = _load(r["property"])
    job, case = r["job"], r["case"]
    try:
        runner = mod.Runner(job)
    except SUTError as e:
        print(f"REPRODUCED property={r['property']} tag=exception {e}")
        return 1
    if case is None:
        print("NOT-REPRODUCED: the configuration builds now")
        return 0
    if case.get("aggregate"):
        out = run_job(r["property"], job, r["seed"], lambda *_: None)
        v = out["violation"]
    else:
        v, obs = _one(runner, case)
        print("observation digest", digest([case, obs]))
    if v is None:
        print("NOT-REPRODUCED")
        return 0
    print(f"REPRODUCED property={r['property']} tag={v['tag']} {v['msg']}")
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")))
    ap.add_argument("--only", default=None, help="substring filter on job names (debugging)")
    ap.add_argument("--replay")
    ap.add_argument("--digest", action="store_true", help="print the log digest of every job")
    ap.add_argument("--timing", action="store_true", help="print the slowest configurations")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    os.environ.update(ENV)
    if a.replay:
        return replay_main(a.replay)
    _setup_paths()
    t_start = time.time()
    mod = _load(a.prop)
    jobs = mod.jobs(a.seed, a.tier)
    names = [j["name"] for j in jobs]
    assert len(set(names)) == len(names), "job names must be unique"
    if a.only:
        jobs = [j for j in jobs if a.only in j["name"]]
    print(f"{a.prop}: seed={a.seed} tier={a.tier} configurations={len(jobs)}", flush=True)
    ctx = mp.get_context("spawn")
    nw = a.workers or min(8, os.cpu_count() or 1)
    nw = max(1, min(nw, len(jobs)))
    # Longest first; ties broken by name so that the order is reproducible.
    queue = sorted(jobs, key=lambda j: (-j.get("cost", 1.0), j["name"]))
    total = len(queue)
    workers, done, violations, errors = [], [], [], []
    truncated = False
    timing = []

    def spawn():
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(cc, a.prop, a.seed), daemon=True)
        p.start()
        cc.close()
        return dict(p=p, c=pc, job=None, phase="import", case=None, since=time.time())

    def assign(w):
        if queue and not violations and not truncated:
            w["job"] = queue.pop(0)
            w["c"].send(w["job"])
            w.update(phase="build", case=None, since=time.time())
        else:
            w["job"] = None
            try: w["c"].send(None)
            except OSError: pass
            w["phase"] = "finished"

    for _ in range(nw):
        workers.append(spawn())
    while any(w["phase"] != "finished" for w in workers):
        live = [w for w in workers if w["phase"] != "finished"]
        ready = multiprocessing.connection.wait([w["c"] for w in live], timeout=1.0)
        now = time.time()
        if not a.only and a.tier == "quick" and now - t_start > GLOBAL_STOP_S:
            truncated = True
        for w in live:
            if w["c"] in ready:
                try:
                    m = w["c"].recv()
                except (EOFError, OSError):
                    w["p"].join(5)
                    if violations:
                        w["phase"] = "finished"
                        continue
                    code = w["p"].exitcode
                    if w["phase"] == "run":
                        violations.append((w["job"], V("crash", f"worker process died (exit {code}) during a simulated run"), w["case"], None))
                        w["phase"] = "finished"
                    else:
                        errors.append(f"worker died in phase {w['phase']} (exit {code}) job={w['job'] and w['job']['name']}")
                        w["phase"] = "finished"
                    continue
                if m[0] == "ready":
                    assign(w)
                elif m[0] == "phase":
                    w.update(phase=m[1], case=m[2], since=now)
                elif m[0] == "timing":
                    timing.append((m[1] + m[2], m[1], m[2], w["job"]["name"]))
                elif m[0] == "done":
                    done.append((m[1], m[2]["stats"]))
                    if m[2]["violation"] is not None:
                        violations.append((m[1], m[2]["violation"], m[2]["case"], m[2]["shrink"]))
                    assign(w)
                elif m[0] == "error":
                    errors.append(f"{m[1]['name']}: {m[2]}")
                    assign(w)
                elif m[0] == "import_error":
                    violations.append((dict(name="import"), V("exception", "importing diffrax: " + m[1]), None, None))
                    w["phase"] = "finished"
                else:
                    errors.append(str(m))
                    w["phase"] = "finished"
            elif w["phase"] == "run" and now - w["since"] > RUN_HANG_S:
                violations.append((w["job"], V("hang", f"a simulated run did not finish within {RUN_HANG_S:.0f} s"), w["case"], None))
                w["p"].kill(); w["phase"] = "finished"
            elif w["phase"] in ("build", "import") and now - w["since"] > BUILD_HANG_S:
                errors.append(f"build of {w['job'] and w['job']['name']} exceeded {BUILD_HANG_S} s")
                w["p"].kill(); w["phase"] = "finished"
        if violations:
            # A violation decides the check; give minimisation elsewhere no further time.
            for w in workers:
                if w["phase"] not in ("finished", "minimise"):
                    w["p"].kill(); w["phase"] = "finished"
    for w in workers:
        w["p"].join(1)
        if w["p"].is_alive():
            w["p"].kill()
    wall = time.time() - t_start
    if a.digest:
        for j, s in sorted(done, key=lambda x: x[0]["name"]):
            print("DIGEST", j["name"], s["log"])
    if a.timing:
        for x in sorted(timing, reverse=True)[:12]:
            print("TIMING total %.1f build %.1f run %.1f %s" % x)
    rc = 0
    if violations:
        violations.sort(key=lambda x: x[0]["name"])
        job, v, case, sh = violations[0]
        rc = 1
        path = _write_replay(a, job, v, case, sh)
        again = _confirm(path) if v["tag"] not in ("hang", "crash") and job["name"] != "import" else None
        print(f"  tag={v['tag']} job={job['name']}\n  {v['msg']}")
        print(f"  replayed in a fresh process: {again}")
        print(f"VIOLATION property={a.prop} replay={path}", flush=True)
    elif errors:
        rc = 2
        print("HARNESS ERROR\n" + "\n".join(errors[:5]), file=sys.stderr)
    if not a.no_evidence and not a.only:
        write_evidence(a, mod, done, total, wall, violations, truncated)
    runs = sum(s["runs"] for _, s in done)
    print(f"{a.prop}: {runs} simulated runs over {len(done)}/{total} configurations in {wall:.1f} s "
          f"-> exit {rc}", flush=True)
    for k in sorted({p for _, s in done for p in s["probes"] if p.startswith("known_finding:")}):
        print(f"KNOWN-FINDING: property={a.prop} {k[len('known_finding:'):]}")
    return rc


def _write_replay(a, job, v, case, sh):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=a.prop, seed=a.seed, tier=a.tier, job=job, case=case, violation=v,
                minimised=sh, how="./check --replay <this file> (cwd /verif)")
    s = json.dumps(body, indent=1, default=_np)
    path = os.path.join(d, f"{a.prop}-{hashlib.sha256(s.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(s)
    return path


def _np(x):
    import numpy as np
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, np.ndarray): return x.tolist()
    raise TypeError(type(x))


def _confirm(path):
    import subprocess
    try:
        r = subprocess.run([sys.executable, "-m", "sim.run", "--replay", path], cwd=VERIF,
                           capture_output=True, text=True, timeout=200)
        line = [l for l in r.stdout.splitlines() if "REPRODUCED" in l]
        return line[0][:300] if line else f"replay exit {r.returncode}"
    except subprocess.TimeoutExpired:
        return "replay timed out"


def write_evidence(a, mod, done, total, wall, violations, truncated):
    runs = sum(s["runs"] for _, s in done)
    faults, probes, sigs = {}, {}, set()
    for j, s in done:
        for k, n in s["faults"].items(): faults[k] = faults.get(k, 0) + n
        for k, n in s["probes"].items(): probes[k] = probes.get(k, 0) + n
        sigs.update(s["nontrivial"])
    meta = mod.META
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(sigs),
        rule=meta["rule"],
        samples=[x for _, s in sorted(done, key=lambda d: d[0]["name"])[:3] for x in s["samples"]] or [dict(note="no run completed")],
        simulated_runs=runs,
        seeds_per_hour=round(runs / max(wall, 1e-9) * 3600),
        simulated_time=dict(value=round(sum(s["sim_time"] for _, s in done), 3), unit=meta.get("time_unit", "integration-time units covered by accepted steps")),
        attempted_steps=sum(s["steps"] for _, s in done),
        configurations=len(done), configurations_planned=total, truncated=truncated,
        faults_injected={k: faults[k] for k in sorted(faults)},
        probes={k: probes[k] for k in sorted(probes)},
        interleaving_measure=meta["measure"],
        real_components=meta["real"], stubbed_components=meta["stub"],
        log_digest=hashlib.sha256("".join(s["log"] for _, s in sorted(done, key=lambda d: d[0]["name"])).encode()).hexdigest()[:16],
    )
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed,
              level="exploration", coverage=cov, assumptions=meta.get("assumptions", []),
              wall_s=round(wall, 2), violations=len(violations))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_np)

