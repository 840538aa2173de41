"""SDE problems and one-step reference models (numpy, no diffrax in the reference part)."""
from __future__ import annotations
import json, os
from decimal import Decimal, getcontext
import numpy as np
from . import ref

getcontext().prec = 45
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "srk.json")) as f:
    SRK = json.load(f)

LANGEVIN = ["ALIGN", "ShOULD", "QUICSORT"]
ADDITIVE = ["SEA", "SRA1", "ShARK"]
GENERAL = ["Euler", "EulerHeun", "ItoMilstein", "StratonovichMilstein", "Heun", "Midpoint", "Ralston", "ReversibleHeun",
           "SPaRK", "GeneralShARK", "SlowRK", "Half:EulerHeun", "Half:Heun"]
ALL = GENERAL + ADDITIVE + LANGEVIN
LEVY = {**{n: "H" for n in SRK}, "ALIGN": "H", "ShOULD": "K", "QUICSORT": "K"}
STRONG = {"Euler": .5, "EulerHeun": .5, "ItoMilstein": 1., "StratonovichMilstein": 1., "Heun": .5, "Midpoint": .5, "Ralston": .5,
          "ReversibleHeun": .5, "SPaRK": .5, "GeneralShARK": .5, "SlowRK": .5, "SEA": 1., "SRA1": 1.5, "ShARK": 1.5,
          "ALIGN": 2., "ShOULD": 3., "QUICSORT": 3.}


# layouts: (state dim, noise dim)
class Layout:
    """kind: vec (3 states, 2 noises), tree (blocks), diag (3, 3), add (3, 2, time dependent only)."""
    def __init__(self, kind):
        self.kind = kind
        self.d = 4 if kind == "lang" else 3
        self.m = {"vec": 2, "tree": 4, "diag": 3, "add": 2, "addtree": 4, "lang": 2}[kind]

    def G(self, t, y, q, xp=np):
        k = self.kind
        i, j = np.arange(3)[:, None], np.arange(self.m)[None, :]
        if k in ("add", "addtree"):
            M = q * (0.4 + 0.2 * xp.cos(t + i + 2 * j))
        elif k == "diag":
            return q * (0.5 + 0.3 * xp.sin(y + t))          # the diagonal
        else:
            M = q * (0.3 + 0.2 * xp.sin(y[(i + j) % 3] + 0.7 * t + i - j))
        if k in ("tree", "addtree"):
            M = M * self.mask
        return M

    mask = np.array([[1., 1, 0, 0], [0, 0, 1, 1], [0, 0, 1, 1]])

    def Gm(self, t, y, q):
        M = self.G(t, y, q)
        return np.diag(M) if self.kind == "diag" else M

    def dG(self, t, y, q, v):
        """directional derivative of the matrix G along v"""
        k = self.kind
        if k in ("add", "addtree"):
            return np.zeros((3, self.m))
        if k == "diag":
            return np.diag(q * 0.3 * np.cos(y + t) * v)
        i, j = np.arange(3)[:, None], np.arange(self.m)[None, :]
        M = q * 0.2 * np.cos(y[(i + j) % 3] + 0.7 * t + i - j) * v[(i + j) % 3]
        return M * self.mask if k == "tree" else M


def grad_f(x, p, xp=np):
    return p[0] * x + p[1] * xp.sin(p[2] * x)


def _lang_coeffs(c, h):
    c, h = Decimal(float(c)), Decimal(float(h))
    al = c * h
    beta, bh = (-al).exp(), (-al / 2).exp()
    o = dict(beta=beta, bh=bh, a1=(1 - beta) / c, ah=(1 - bh) / c, b1=(beta + al - 1) / (c * al), bhf=(bh + al / 2 - 1) / (al * c))
    o["aa"] = o["a1"] / h
    o["chh"] = 6 * (beta * (al + 2) + al - 2) / (al * al * c)
    o["ckk"] = 60 * (beta * (al * (al + 6) + 12) - al * (al - 6) - 12) / (al ** 3 * c)
    s = Decimal(3).sqrt() / 6
    for n, l in (("l", Decimal("0.5") - s), ("r", Decimal("0.5") + s)):
        b = (-al * l).exp()
        o["beta" + n], o["a" + n], o["b" + n] = b, (1 - b) / c, (b + al * l - 1) / (c * c * h)
    o["a3"] = (1 - (-al / 3).exp()) / c
    return {k: float(v) for k, v in o.items()}


class Method:
    """One step over [t0, t1] (actual times; h = t1 - t0 may be negative) with driving increments
    W, H, K as seen in the direction of integration."""

    def __init__(self, name, layout, p, q):
        self.name, self.L, self.p, self.q = name, layout, p, q

    def f(self, t, y): return ref.vf(t, y, self.p)
    def G(self, t, y): return self.L.Gm(t, y, self.q)

    def init(self, t0, y0):
        if self.name == "ReversibleHeun":
            return (y0, t0)
        if self.name.startswith("Half:"):
            return None
        return None

    def step(self, t0, t1, y0, state, W, H, K, mid=None, made_jump=False):
        """mid(): the (W,) increments of the two halves, for HalfSolver"""
        n, h, f, G = self.name, t1 - t0, self.f, self.G
        if n.startswith("Half:"):
            inner = Method(n[5:], self.L, self.p, self.q)
            th = t0 + 0.5 * (t1 - t0)
            (Wa, Wb) = mid
            ya, _, _ = inner.step(t0, th, y0, None, Wa, None, None)
            y1, _, _ = inner.step(th, t1, ya, None, Wb, None, None)
            yf, _, _ = inner.step(t0, t1, y0, None, W, None, None)
            return y1, np.abs(y1 - yf), None
        if n == "Euler":
            return y0 + h * f(t0, y0) + G(t0, y0) @ W, None, None
        if n == "EulerHeun":
            g0 = G(t0, y0) @ W
            return y0 + h * f(t0, y0) + 0.5 * (g0 + G(t0, y0 + g0) @ W), None, None
        if n == "StratonovichMilstein":
            g0 = G(t0, y0) @ W
            return y0 + h * f(t0, y0) + g0 + 0.5 * self.L.dG(t0, y0, self.q, g0) @ W, None, None
        if n == "ItoMilstein":
            g0 = G(t0, y0)
            WW = np.outer(W, W) - h * np.eye(len(W))
            v = np.zeros_like(y0)
            for j1 in range(len(W)):
                v = v + self.L.dG(t0, y0, self.q, g0[:, j1]) @ WW[j1]
            return y0 + h * f(t0, y0) + g0 @ W + 0.5 * v, None, None
        if n == "ReversibleHeun":
            yh0, _ = state
            z0 = y0 if made_jump else yh0
            k0 = h * f(t0, z0) + G(t0, z0) @ W
            yh1 = 2 * y0 - yh0 + k0
            k1 = h * f(t1, yh1) + G(t1, yh1) @ W
            return y0 + 0.5 * (k0 + k1), 0.5 * (k1 - k0), (yh1, t1)
        if n in ref.ERK:
            tab = ref.TABLEAUS[n]
            ks = []
            for i, c in enumerate(tab["c"]):
                ti = t1 if c == 1.0 else t0 + c * h
                z = y0 + sum((a * k for a, k in zip(tab["a"][i], ks)), np.zeros_like(y0))
                ks.append(h * f(ti, z) + G(ti, z) @ W)
            return (y0 + sum(b * k for b, k in zip(tab["b"], ks)),
                    sum(b * k for b, k in zip(tab["berr"], ks)), None)
        if n in SRK:
            return self._srk(SRK[n], t0, t1, h, y0, W, H)
        return self._lang(h, y0, W, H, K)

    def _srk(self, tab, t0, t1, h, y0, W, H):
        f, G = self.f, self.G
        s = len(tab["b"])
        kf, kw, kh = [], [], []
        add = tab["additive"]
        if add:
            g0, g1 = G(t0, y0), G(t1, y0)
        for j in range(s):
            z = y0 + sum((a * k for a, k in zip(tab["a"][j], kf)), np.zeros_like(y0))
            if add:
                z = z + g0 @ (tab["w"]["a"][j] * W + tab["hh"]["a"][j] * H)
            else:
                z = z + sum((a * k for a, k in zip(tab["w"]["a"][j], kw)), np.zeros_like(y0))
                z = z + sum((a * k for a, k in zip(tab["hh"]["a"][j], kh)), np.zeros_like(y0))
            t = t0 + tab["c"][j] * h
            kf.append(h * f(t, z))
            if not add:
                kw.append(G(t, z) @ W); kh.append(G(t, z) @ H)
        y1 = y0 + sum(b * k for b, k in zip(tab["b"], kf))
        if add:
            y1 = y1 + g0 @ (tab["w"]["b"] * W + tab["hh"]["b"] * H) + 0.5 * (g1 - g0) @ (W - 2 * H)
        else:
            y1 = y1 + sum(b * k for b, k in zip(tab["w"]["b"], kw)) + sum(b * k for b, k in zip(tab["hh"]["b"], kh))
        return y1, None, None

    def _lang(self, h, y0, W, H, K):
        x0, v0 = y0[:2], y0[2:]
        gam, u = np.asarray([self.q, 2 * self.q]), np.asarray([1.0, 0.6])
        co = [_lang_coeffs(g, h) for g in gam]
        C = {k: np.asarray([c[k] for c in co]) for k in co[0]}
        rho = np.sqrt(2 * gam * u)
        F = lambda x: grad_f(x, self.p)
        f0 = F(x0)
        if self.name == "ALIGN":
            x1 = x0 + C["a1"] * v0 - C["b1"] * u * h * f0 + rho * (C["b1"] * W + C["chh"] * H)
            f1 = F(x1)
            v1 = C["beta"] * v0 - u * ((C["a1"] - C["b1"]) * f0 + C["b1"] * f1) + rho * (C["aa"] * W - gam * C["chh"] * H)
            return np.concatenate([x1, v1]), None, None
        rwk = rho * (W - 12 * K)
        vt = v0 + rho * (H + 6 * K)
        if self.name == "ShOULD":
            ch = C["chh"] * H + C["ckk"] * K
            xa = x0 + C["ah"] * vt + C["bhf"] * (-u * h * f0 + rwk)
            f1 = F(xa)
            x1 = x0 + C["a1"] * v0 - u * h * C["b1"] * (f0 / 3 + 2 * f1 / 3) + rho * (C["b1"] * W + ch)
            f2 = F(x1)
            v1 = (C["beta"] * v0 - u * h * (C["beta"] / 6 * f0 + 2 / 3 * C["bh"] * f1 + f2 / 6)
                  + rho * (C["aa"] * W - gam * ch))
            return np.concatenate([x1, v1]), None, None
        xa = x0 + C["al"] * vt + C["bl"] * rwk
        f1 = F(xa) * u * h
        xb = x0 + C["ar"] * vt + C["br"] * rwk - C["a3"] * f1
        f2 = F(xb) * u * h
        x1 = x0 + C["a1"] * vt + C["b1"] * rwk - 0.5 * (C["ar"] * f1 + C["al"] * f2)
        v1 = C["beta"] * vt - 0.5 * (C["betar"] * f1 + C["betal"] * f2) + C["aa"] * rwk - rho * (H - 6 * K)
        return np.concatenate([x1, v1]), None, None


# ------------------------------------------------------------------------- diffrax objects

def pack(L, v):
    import jax.numpy as jnp
    if L.kind in ("tree", "addtree"): return {"a": v[0], "b": v[1:]}
    if L.kind == "lang": return (v[:2], v[2:])
    return v


def noise_shape(L):
    import jax, jax.numpy as jnp
    if L.kind in ("tree", "addtree"):
        return {"a": jax.ShapeDtypeStruct((2,), jnp.float64), "b": jax.ShapeDtypeStruct((2,), jnp.float64)}
    return (L.m,)


def noise_flat(L, W):
    """batched pytree -> (n, m) numpy"""
    if W is None:
        return None
    if L.kind in ("tree", "addtree"):
        return np.concatenate([np.asarray(W["a"]), np.asarray(W["b"])], -1)
    return np.asarray(W)


def state_flat(L, ys):
    if L.kind in ("tree", "addtree"):
        return np.concatenate([np.asarray(ys["a"])[:, None], np.asarray(ys["b"])], 1)
    if L.kind == "lang":
        return np.concatenate([np.asarray(ys[0]), np.asarray(ys[1])], 1)
    return np.asarray(ys)


def make_terms(name, L, path, q):
    """args = p (or dict with p)."""
    import jax.numpy as jnp, diffrax as dfx, lineax as lx
    P = lambda a: a["p"] if isinstance(a, dict) else a
    if L.kind == "lang":
        gam, u = jnp.stack([q, 2 * q]), jnp.asarray([1.0, 0.6])
        gf = lambda x, a: grad_f(x, P(a), jnp)
        return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(gam, u, gf), dfx.UnderdampedLangevinDiffusionTerm(gam, u, path))
    flat = (lambda y: jnp.concatenate([y["a"][None], y["b"]])) if L.kind in ("tree", "addtree") else (lambda y: y)
    drift = dfx.ODETerm(lambda t, y, a: pack(L, ref.vf(t, flat(y), P(a), jnp)))

    def diff(t, y, a):
        M = L.G(t, None if L.kind in ("add", "addtree") else flat(y), q, jnp)
        if L.kind in ("tree", "addtree"):
            return {"a": M[0, :2], "b": M[1:, 2:]}
        if L.kind == "diag":
            return lx.DiagonalLinearOperator(M)
        return M
    return dfx.MultiTerm(drift, dfx.ControlTerm(diff, path))


def make_solver(name):
    import diffrax as dfx
    if name.startswith("Half:"):
        return dfx.HalfSolver(make_solver(name[5:]))
    return getattr(dfx, name)()


def levy_cls(kind):
    import diffrax as dfx
    return {None: dfx.BrownianIncrement, "H": dfx.SpaceTimeLevyArea, "K": dfx.SpaceTimeTimeLevyArea}[kind]
