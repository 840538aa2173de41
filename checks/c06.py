"""C06: Brownian noise is one consistent path under any query schedule."""
from __future__ import annotations
import numpy as np
from sim.core import V, sut, rng_for, digest
from . import common as cm

META = dict(
    rule="a run is one seeded query schedule (times, order, repetition, batching) put to one path, or one seeded partition put to "
         "many keys at once; non-trivial = the schedule revisits a tree cell, or queries across several levels; distinct by "
         "(configuration, kind, cell word of the query points)",
    measure="distinct (configuration, kind of run, order pattern and tree-cell word of the query points)",
    real=["VirtualBrownianTree", "UnsafeBrownianPath", "Levy area containers", "jax.random"],
    stub=["the solver (replaced by the query scheduler; C14 runs the paths inside real solves)"],
    assumptions=["query points closer than the tolerance share a cell: only consistency, not the law, is required there",
                 "statistics: 7-8 sigma bounds per partition, 5.7 sigma on moments pooled over a configuration; seeds are fixed"],
)
P, Q, NK = 10, 16, 2500
LEVY = ["W", "H", "K"]


def jobs(seed, tier):
    rng = rng_for(seed, "C06", "jobs")
    th = tier != "quick"
    out = []
    combos = [(lv, dt, sh) for lv in LEVY for dt, sh in (("f64", "s"), ("f64", "v"), ("f64", "tree"), ("f32", "v"))]
    combos += [("W", "c128", "v"), ("H", "c128", "s"), ("W", "mixed", "tree"), ("H", "mixed", "tree")]
    for lv, dt, sh in combos:
        out.append(dict(kind="vbt", name=f"vbt-{lv}-{dt}-{sh}", levy=lv, dtype=dt, shape=sh, runs=600 if th else 120, law_every=6,
                        cost=2.0 + 2 * (lv == "K")))
    for lv in LEVY:
        for dt, sh in (("f64", "v"), ("f64", "tree"), ("f32", "s")):
            out.append(dict(kind="unsafe", name=f"unsafe-{lv}-{dt}-{sh}", levy=lv, dtype=dt, shape=sh, runs=600 if th else 120, law_every=6, cost=1.0))
    return out


def chen(X, Y):
    """Combine (dt, W, H, K) over adjacent intervals via the iterated integrals of the path."""
    h, g = X["dt"], Y["dt"]
    W = X["W"] + Y["W"]
    out = dict(dt=h + g, W=W)
    if "H" in X:
        A = area(X) + area(Y) + g * X["W"]
        out["A"] = A
        if "K" in X:
            out["B"] = moment(X) + X["W"] * (g * g / 2 + h * g) + moment(Y) + h * area(Y)
    return out


def area(X):     # int (W_r - W_s) dr
    return X["dt"] * (X["H"] + X["W"] / 2)


def moment(X):   # int (W_r - W_s) (r - s) dr
    h = X["dt"]
    return h * area(X) / 2 + X["W"] * h * h / 12 - X["K"] * h * h


class Runner:
    def __init__(self, job):
        import jax, jax.numpy as jnp, jax.random as jr, diffrax as dfx, equinox as eqx
        from sim import system  # noqa: F401  (enables x64)
        self.job = job
        self.jr, self.jnp = jr, jnp
        levy = {"W": dfx.BrownianIncrement, "H": dfx.SpaceTimeLevyArea, "K": dfx.SpaceTimeTimeLevyArea}[job["levy"]]
        D = {"f64": jnp.float64, "f32": jnp.float32, "c128": jnp.complex128}
        S = jax.ShapeDtypeStruct
        d1 = D.get(job["dtype"], jnp.float64)
        d2 = jnp.float32 if job["dtype"] == "mixed" else d1
        self.shape = {"s": S((), d1), "v": S((3,), d1), "tree": {"a": S((1, 2), d1), "b": (S((), d2),)}}[job["shape"]]
        self.low = job["dtype"] in ("f32", "mixed")
        self.cplx = job["dtype"] == "c128"
        self.fields = dict(W=["W"], H=["W", "H"], K=["W", "H", "K"])[job["levy"]]
        unsafe = job["kind"] == "unsafe"

        def make(t0, t1, tol, key):
            if unsafe:
                return dfx.UnsafeBrownianPath(self.shape, key, levy)
            return dfx.VirtualBrownianTree(t0, t1, tol, self.shape, key, levy)

        def flat(x):   # pytree of W/H/K -> real vector
            ls = [jnp.ravel(l) for l in jax.tree_util.tree_leaves(x)]
            ls = [z for l in ls for z in ((l.real, l.imag) if self.cplx else (l,))]
            return jnp.concatenate([l.astype(jnp.float64) for l in ls])

        def one(b, s, u):
            x = b.evaluate(s, u, use_levy=True)
            return dict(dt=jnp.stack([z.astype(jnp.float64) for z in jax.tree_util.tree_leaves(x.dt)])[0], **{f: flat(getattr(x, f)) for f in self.fields})

        def consist(t0, t1, tol, seed, pairs, pts):
            b = make(t0, t1, tol, jr.key(seed))
            vm = jax.vmap(lambda p: one(b, p[0], p[1]))(pairs)

            def single(x):
                p, sd = x
                bb = make(t0, t1, tol, jr.key(sd))
                return one(bb, p[0], p[1]), flat(bb.evaluate(p[0], p[1]))
            sd = jnp.full(Q + 2, seed, jnp.uint32).at[Q:].add(jnp.uint32(1))
            sc, plain = jax.lax.map(single, (jnp.concatenate([pairs, pairs[:2]]), sd))
            from0 = jax.lax.map(lambda t: one(b, t, None), pts)
            return vm, {k: v[:Q] for k, v in sc.items()}, plain[:Q], from0, {k: v[Q:] for k, v in sc.items()}

        def law(t0, t1, tol, seed, grid):
            ks = jr.split(jr.key(seed), NK)
            def per(key):
                b = make(t0, t1, tol, key)
                return jax.vmap(lambda s, u: one(b, s, u))(grid[:-1], grid[1:])
            return jax.vmap(per)(ks)
        self.f_cons = jax.jit(consist)
        self.f_law = jax.jit(law)
        self.pool = {}
        self.execute(self.gen(rng_for("build"), 0))
        self.execute(self.gen(rng_for("build"), 1))

    # ---------------------------------------------------------------- schedules
    def gen(self, rng, i):
        job = self.job
        law = i % job["law_every"] == 0
        unsafe = job["kind"] == "unsafe"
        t0 = float(rng.choice([0.0, 0.0, 1.0, -2.0, 0.37]))
        L = float(rng.choice([1.0, 1.0, 2.0, 0.3, 10.0]))
        t1 = t0 + L
        k = int(rng.integers(1, 12 if not law else 9)) if job["levy"] != "K" or not self.low else int(rng.integers(1, 4))
        if self.low: k = min(k, 6)
        # a tolerance that is, or is not, a power of two
        cell = 2.0 ** -k
        tolr = cell * float(rng.choice([1.0, 1.0, 1.3, 1.9]))
        c = dict(kind="law" if law else "path", t0=t0, t1=t1, tol=tolr * L, level=k, seed=int(rng.integers(2 ** 31)))
        style = str(rng.choice(["uniform", "dyadic", "edge", "cluster", "mixed"]))
        m = 2 ** k
        def pick():
            s = style if style != "mixed" else ["uniform", "dyadic", "edge", "cluster"][rng.integers(4)]
            if s == "uniform": return float(rng.random())
            if s == "dyadic":
                j = int(rng.integers(0, k + 2)); return float(rng.integers(0, 2 ** j + 1)) / 2 ** j
            if s == "edge":
                x = float(rng.integers(0, m + 1)) / m
                return float(np.clip(np.nextafter(x, rng.choice([-1.0, 2.0])), 0, 1)) if rng.random() < 0.6 else x
            base = float(rng.integers(0, m)) / m
            return float(np.clip(base + cell * rng.choice([0.0, 0.5, rng.random(), 1 + rng.random()]), 0, 1))
        if law:
            # grid points in different cells: the increments have the exact joint law
            n, rs = 5, []
            if rng.random() < 0.6 and not unsafe:
                # cell edges and points inside the cells: the finest scale with the exact law
                k = c["level"] = int(rng.choice([1, 2, 3, int(rng.integers(1, k + 1))]))
                if self.low: k = c["level"] = min(k, 3 - (job["levy"] == "K"))
                m, cell = 2 ** k, 2.0 ** -k
                c["tol"] = cell * L * float(rng.choice([1.0, 1.0, 1.3, 1.9]))
                j = int(rng.integers(0, m - 1))
                u, w = rng.uniform(0.1, 0.9, 2)
                inner = [j + u, j + 1, j + 1 + w]
                rs = [float(x * cell) for x in ([j, *inner, j + 2] if rng.random() < 0.7 else [0, *inner, m])]
            for _ in range(400):
                if len(rs) >= n: break
                r = pick() if style != "edge" else float(rng.integers(0, m + 1)) / m
                if all(abs(r - q) >= tolr * (1.0 if style in ("dyadic",) else 1.000001) for q in rs):
                    rs.append(r)
            rs = rs[:n]
            rs = sorted(rs)
            while len(rs) < n: rs.append(None)
            if None in rs or (self.low and np.min(np.diff(rs)) < (0.02 if job["levy"] == "K" else 1e-2)):
                rs = [0.0, 0.3, 0.5, 0.8, 1.0]
                c["tol"] = min(c["tol"], 0.125 * L)
            c["grid"] = [min(max(t0 + r * L, t0), t1) for r in rs]
            return c
        pts = sorted({pick() for _ in range(P)} | {0.0, 1.0})
        pts = pts[:P] if rng.random() < 0.5 else pts[-P:]
        while len(pts) < P: pts.append(pts[-1])
        ts = [min(max(t0 + r * L, t0), t1) for r in pts]
        c["pts"] = ts
        pairs = []
        while len(pairs) < Q:
            if rng.random() < 0.3 and pairs:
                pairs.append(list(pairs[rng.integers(len(pairs))]))     # the same query again (a retry)
            else:
                a, b = sorted(int(x) for x in rng.integers(0, P, 2))
                pairs.append([ts[a], ts[b]])
        # adjacent triple for the combination rule
        idx = sorted(int(x) for x in rng.choice(P, 3, replace=False))
        pairs[0], pairs[1], pairs[2] = [ts[idx[0]], ts[idx[1]]], [ts[idx[1]], ts[idx[2]]], [ts[idx[0]], ts[idx[2]]]
        perm = rng.permutation(Q)
        c["pairs"] = [pairs[int(j)] for j in perm]
        c["triple"] = [int(np.where(perm == j)[0][0]) for j in range(3)]
        return c

    def execute(self, c):
        a = [np.asarray(c[k], float) for k in ("t0", "t1", "tol")] + [np.asarray(c["seed"], np.uint32)]
        np_ = lambda x: {k: np.asarray(v) for k, v in x.items()}
        if c["kind"] == "law":
            return dict(x=np_(sut(lambda: self.f_law(*a, np.asarray(c["grid"])))))
        vm, sc, plain, from0, other = sut(lambda: self.f_cons(*a, np.asarray(c["pairs"]), np.asarray(c["pts"])))
        return dict(vm=np_(vm), sc=np_(sc), plain=np.asarray(plain), from0=np_(from0), other=np_(other))

    # ---------------------------------------------------------------- checks
    def check(self, c, o, st):
        st.probe("kind_" + c["kind"])
        if c["kind"] == "law":
            return self._law(c, o["x"], st)
        return self._path(c, o, st)

    def _path(self, c, o, st):
        job = self.job
        unsafe = job["kind"] == "unsafe"
        L = c["t1"] - c["t0"]
        eps = 3e-3 if self.low else 1e-6   # (a path moves by sqrt(ulp) when a time is rounded)
        scale = dict(W=np.sqrt(L), H=np.sqrt(L), K=np.sqrt(L), dt=L)
        pairs = np.asarray(c["pairs"])
        st.steps += len(pairs)
        word = "".join(str(int(min(9, np.floor((x - c["t0"]) / L * 8)))) for x in c["pts"])
        st.nontrivial.add(digest([job["name"], word, c["level"], c["triple"]]))
        h = pairs[:, 1] - pairs[:, 0]
        st.fault("repeated_query", len(pairs) - len({tuple(p) for p in c["pairs"]}))
        st.fault("zero_length_query", int(np.sum(h == 0)))
        vm, sc = o["vm"], o["sc"]
        for f in ("dt", *self.fields):
            if not np.all(np.isfinite(sc[f])):
                return V("nonfinite", f"{f} of queries {pairs.tolist()} is {sc[f].tolist()}")
        if np.max(np.abs(sc["dt"] - h)) > eps * 10 * max(1.0, L):
            j = int(np.argmax(np.abs(sc["dt"] - h)))
            return V("dt", f"query {pairs[j].tolist()} returns dt={sc['dt'][j]!r}")
        # amplification of rounding by the division by h (H) and h^2 (K)
        def unit(f, hh):
            hh = np.maximum(hh, 1e-300) / L
            return {"W": 1.0, "H": hh, "K": hh ** 2}[f]
        for f in self.fields:
            u = unit(f, h)[:, None] if f != "W" else 1.0
            e = np.abs(vm[f] - sc[f]) * u / scale[f]
            if np.max(e) > eps:
                j = int(np.argmax(np.max(e, 1)))
                return V("batching", f"{f} of query {pairs[j].tolist()}: alone {sc[f][j]}, in a batch {vm[f][j]}")
        if np.max(np.abs(o["plain"] - sc["W"])) > eps * scale["W"]:
            return V("use_levy", f"W differs with and without use_levy: {o['plain'].tolist()} / {sc['W'].tolist()}")
        seen = {}
        for j, p in enumerate(map(tuple, c["pairs"])):
            if p in seen:
                for f in self.fields:
                    if not np.array_equal(sc[f][j], sc[f][seen[p]]):
                        return V("repeat", f"{f} of query {p} asked twice: {sc[f][seen[p]]}, {sc[f][j]}")
            seen.setdefault(p, j)
        for j in range(len(pairs)):
            if h[j] == 0:
                if np.max(np.abs(sc["W"][j])) > eps * scale["W"]:
                    return V("zero_length", f"W over the empty interval {pairs[j].tolist()} is {sc['W'][j]}")
                if "H" in self.fields and np.max(np.abs(sc["H"][j])) > eps * scale["H"]:
                    return V("zero_length", f"H over the empty interval {pairs[j].tolist()} is {sc['H'][j]}")
        for j in range(2):   # another key gives another path
            if h[j] > 1e-6 * L and np.max(np.abs(sc["W"][j] - o["other"]["W"][j])) < 1e-9 * np.sqrt(h[j]):
                return V("key", f"two keys give the same increment {sc['W'][j]} over {pairs[j].tolist()}")
        if unsafe:   # a fresh sample for every interval, also overlapping ones
            z = sc["W"] / np.sqrt(np.maximum(h, 1e-300))[:, None]
            for i in range(len(pairs)):
                for j in range(i):
                    if h[i] > 0 < h[j] and c["pairs"][i] != c["pairs"][j] and np.max(np.abs(z[i] - z[j])) < 1e-5 * (1 + np.max(np.abs(z[i]))) ** (1 if len(z[i]) > 1 else 0):
                        if len(z[i]) > 1 or np.abs(z[i] - z[j]).max() < 1e-7:
                            return V("reuse", f"the same sample is used for {pairs[i].tolist()} and {pairs[j].tolist()}")
            return None
        # all queries come from one path: values from the start of the tree, and the combination rule
        g = lambda src, j: {f: (src[f][j] if f == "dt" else src[f][j]) for f in ("dt", *self.fields)}
        i, j, k = c["triple"]
        X, Y, Z = g(sc, i), g(sc, j), g(sc, k)
        v = self._chen(X, Y, Z, [pairs[q].tolist() for q in (i, j, k)], L, eps)
        if v: return v
        pts = list(c["pts"])
        for q in range(len(pairs)):
            a, b = pts.index(pairs[q][0]), pts.index(pairs[q][1])
            X0, Z0 = g(o["from0"], a), g(o["from0"], b)
            e = np.max(np.abs(Z0["W"] - X0["W"] - sc["W"][q]))
            if e > eps * np.sqrt(L):
                return V("path", f"W over {pairs[q].tolist()} is {sc['W'][q]}, but W({pairs[q][1]}) - W({pairs[q][0]}) = {Z0['W'] - X0['W']}")
            small = min(X0["dt"], Z0["dt"]) < (1e-2 if self.low else 1e-6) * L   # H, K are cut off near the origin
            if not small:
                v = self._chen(X0, g(sc, q), Z0, [[c["t0"], pts[a]], pairs[q].tolist(), [c["t0"], pts[b]]], L, eps)
                if v: return v
        w0 = o["from0"]["W"][[n for n, t in enumerate(pts) if t == c["t0"]]]
        if w0.size and np.max(np.abs(w0)) > 0:
            return V("origin", f"W(t0) = {w0}")
        return None

    def _chen(self, X, Y, Z, names, L, eps):
        T = chen(X, Y)
        if np.max(np.abs(T["W"] - Z["W"])) > 2 * eps * np.sqrt(L):
            return V("additivity", f"W over {names[0]} + {names[1]} = {T['W']}, over {names[2]} it is {Z['W']}")
        if "A" in T and np.max(np.abs(T["A"] - area(Z))) > 4 * eps * L ** 1.5:
            return V("levy_H", f"space-time Levy area over {names[2]}: time integral {area(Z)}, combined from {names[:2]}: {T['A']}")
        if "B" in T and np.max(np.abs(T["B"] - moment(Z))) > 8 * eps * L ** 2.5:
            return V("levy_K", f"space-time-time Levy area over {names[2]}: first moment {moment(Z)}, combined from {names[:2]}: {T['B']}")
        return None

    def _law(self, c, x, st):
        job = self.job
        grid = np.asarray(c["grid"])
        h = np.diff(grid)
        st.steps += NK * len(h)
        st.sim_time += float(NK * (grid[-1] - grid[0]))
        st.nontrivial.add(digest([job["name"], "law", c["level"], np.round((grid - c["t0"]) / (c["t1"] - c["t0"]), 4)]))
        var = dict(W=1.0, H=1 / 12, K=1 / 720)
        zs, names = [], []
        for f in self.fields:
            sd = np.sqrt(h * var[f])[None, :, None]
            z = x[f] / sd * (np.sqrt(2) if self.cplx else 1)
            zs.append(z)
        z = np.stack(zs, 2)                       # (keys, intervals, fields, components)
        if not np.all(np.isfinite(z)):
            return V("nonfinite", f"non-finite increments on {grid.tolist()}")
        K, n, F, D = z.shape
        flat = z.reshape(K, -1)
        lab = [f"{self.fields[f]}[{d}] over [{grid[i]:.6g},{grid[i+1]:.6g}]" for i in range(n) for f in range(F) for d in range(D)]
        mean = flat.mean(0) * np.sqrt(K)
        j = int(np.argmax(np.abs(mean)))
        if abs(mean[j]) > 7:
            return V("mean", f"{lab[j]}: mean over {K} keys is {flat.mean(0)[j]:.4f} standard deviations ({mean[j]:.1f} sigma)")
        cov = flat.T @ flat / K
        tgt = np.eye(len(lab))
        s = (cov - tgt) * np.sqrt(K) / np.where(tgt == 1, np.sqrt(2), 1)
        i, j = np.unravel_index(np.argmax(np.abs(s)), s.shape)
        if abs(s[i, j]) > 8:
            return V("covariance", f"normalised covariance of {lab[i]} and {lab[j]} over {K} keys is {cov[i, j]:.4f}, expected {tgt[i, j]:.0f} ({s[i, j]:.1f} sigma)")
        m4 = ((flat ** 4).mean(0) - 3) / np.sqrt(96 / K)
        j = int(np.argmax(np.abs(m4)))
        if abs(m4[j]) > 14:      # fourth powers have heavy tails
            return V("gaussian", f"{lab[j]}: fourth moment {(flat ** 4).mean(0)[j]:.3f} instead of 3")
        # pooled over all the partitions seen by this configuration
        p = self.pool
        def add(key, sums, cnt):
            a, b = p.get(key, (0.0, 0))
            p[key] = (a + float(sums), b + cnt)
        for f in range(F):
            zf = z[:, :, f]
            add(f"mean {self.fields[f]}", zf.sum(), zf.size)
            add(f"var {self.fields[f]}", (zf ** 2 - 1).sum() / np.sqrt(2), zf.size)
            add(f"kurt {self.fields[f]}", (zf ** 4 - 6 * zf ** 2 + 3).sum() / np.sqrt(24), zf.size)
            if D > 1: add(f"components {self.fields[f]}", (zf[..., :-1] * zf[..., 1:]).sum(), zf[..., 1:].size)
            for g in range(F):
                if g > f: add(f"same interval {self.fields[f]}{self.fields[g]}", (zf * z[:, :, g]).sum(), zf.size)
                if n > 1: add(f"adjacent intervals {self.fields[f]}{self.fields[g]}", (zf[:, :-1] * z[:, 1:, g]).sum(), zf[:, 1:].size)
                if n > 2: add(f"next-adjacent intervals {self.fields[f]}{self.fields[g]}", (zf[:, :-2] * z[:, 2:, g]).sum(), zf[:, 2:].size)
        if K > 1:
            add("neighbouring keys", (flat[:-1] * flat[1:]).sum(), flat[1:].size)
        return None

    def finish(self, st):
        worst = max(((abs(a) / np.sqrt(b), k, a, b) for k, (a, b) in self.pool.items()), default=None)
        if worst:
            st.probe("pooled_moments", len(self.pool))
            if worst[0] > 5.7:
                return V("pooled", f"pooled over {worst[3]} samples: {worst[1]} deviates by {worst[2] / worst[3]:.5f} ({worst[0]:.1f} sigma)")
        return None

    def shrink(self, c):
        import copy
        if c["kind"] == "path":
            keep = set(c["triple"])
            for j in range(Q):
                if j not in keep and c["pairs"][j] != c["pairs"][c["triple"][0]]:
                    d = copy.deepcopy(c); d["pairs"][j] = d["pairs"][c["triple"][0]]; yield d
        for k in ("t0",):
            pass
