"""Executable reference models (numpy only, no diffrax): one step of each method from frozen
coefficient tables, and the problems, written for an arbitrary array namespace so that the
same formula is used by the system under test (jax.numpy) and by the model (numpy)."""
from __future__ import annotations
import json, os
import numpy as np

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "tableaus.json")) as f:
    TABLEAUS = json.load(f)

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "dense.json")) as f:
    DENSE = {k: [np.asarray(x) for x in v] for k, v in json.load(f).items()}

# ---------------------------------------------------------------- problems
# State is a flat vector of length d; p = (amplitude, damping, freq, linear?) with p[3] in {0, 1}.

def vf(t, y, p, xp=np):
    i = xp.arange(y.shape[0])
    z = xp.roll(y, -1)
    return p[0] * ((1 - p[3]) * xp.cos(z) + p[3] * z) - p[1] * y + xp.sin(p[2] * t + i)


def jac(t, y, p):
    d = y.shape[0]
    J = np.diag(np.full(d, -p[1]))
    for i in range(d):
        J[i, (i + 1) % d] += p[0] * (p[3] - (1 - p[3]) * np.sin(y[(i + 1) % d]))
    return J


def vf_ex(t, y, p, xp=np):   # explicit part of the IMEX split
    i = xp.arange(y.shape[0])
    return p[0] * xp.cos(xp.roll(y, -1)) + xp.sin(p[2] * t + i)


def vf_im(t, y, p, xp=np):   # implicit part
    return -p[1] * y + 0.3 * (1 - p[3]) * xp.sin(y) + 0.3 * xp.cos(p[2] * t)


def jac_im(t, y, p):
    return np.diag(-p[1] + 0.3 * (1 - p[3]) * np.cos(y))


# semi-implicit Euler: y = (a, b) halves
def vf_a(t, b, p, xp=np):
    return p[0] * xp.sin(b + t)


def vf_b(t, a, p, xp=np):
    return -p[1] * a + xp.cos(p[2] * t)


ERK = ["Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8"]
ESDIRK = ["Kvaerno3", "Kvaerno4", "Kvaerno5"]
IMEX = ["KenCarp3", "KenCarp4", "KenCarp5", "Sil3"]
NO_ERROR = ["Euler", "ImplicitEuler_", "SemiImplicitEuler", "LeapfrogMidpoint"]


def _newton(g, J, x):
    for _ in range(50):
        r = g(x)
        dx = np.linalg.solve(J(x), r)
        x = x - dx
        if np.max(np.abs(dx)) < 1e-14 * (1 + np.max(np.abs(x))):
            break
    return x


class Method:
    """One-step reference model.  `state` is the method's memory (None for one-step methods)."""

    def __init__(self, name, p):
        self.name, self.p = name, p

    def f(self, t, y):
        return vf(t, y, self.p)

    def init(self, t0, y0):
        if self.name.startswith("Half:"):
            return Method(self.name[5:], self.p).init(t0, y0)
        if self.name == "LeapfrogMidpoint":
            return (t0, y0)
        if self.name == "ReversibleHeun":
            return (y0, self.f(t0, y0))
        return None

    def step(self, t0, t1, y0, state, made_jump=False):
        """-> y1, error or None, new state"""
        h = t1 - t0
        n = self.name
        if n.startswith("Half:"):
            inner = Method(n[5:], self.p)
            th = t0 + 0.5 * (t1 - t0)
            yh, _, s = inner.step(t0, th, y0, state, made_jump)
            y1, _, s = inner.step(th, t1, yh, s, False)
            ya, _, _ = inner.step(t0, t1, y0, state, made_jump)
            return y1, np.abs(y1 - ya), s
        if n == "Euler":
            return y0 + h * self.f(t0, y0), None, None
        if n == "LeapfrogMidpoint":
            tm1, ym1 = state
            return ym1 + (t1 - tm1) * self.f(t0, y0), None, (t0, y0)
        if n == "ReversibleHeun":
            yh0, f0 = state
            if made_jump:
                f0 = self.f(t0, y0)
            yh1 = 2 * y0 - yh0 + h * f0
            f1 = self.f(t1, yh1)
            return y0 + 0.5 * h * (f0 + f1), 0.5 * h * (f1 - f0), (yh1, f1)
        if n == "SemiImplicitEuler":
            k = len(y0) // 2
            a, b = y0[:k], y0[k:]
            a1 = a + h * vf_a(t0, b, self.p)
            b1 = b + h * vf_b(t0, a1, self.p)
            return np.concatenate([a1, b1]), None, None
        if n == "ImplicitEuler":
            I = np.eye(len(y0))
            k0 = h * self.f(t0, y0)
            y1 = _newton(lambda y: y - y0 - h * self.f(t1, y), lambda y: I - h * jac(t1, y, self.p), y0 + k0)
            k1 = y1 - y0
            return y1, 0.5 * (k1 - k0), None
        tab = TABLEAUS[n]
        if n in IMEX:
            return self._imex(tab, t0, t1, h, y0)
        ks = []
        self.ks = [ks]
        I = np.eye(len(y0))
        for i in range(len(tab["c"])):
            c = tab["c"][i]
            ti = t1 if c == 1.0 else t0 + c * h
            z = y0.copy()
            for a, k in zip(tab["a"][i], ks):
                z = z + (h * a) * k
            g = tab["diag"][i] if tab["diag"] is not None else 0.0
            if g != 0.0:
                z0 = z
                z = _newton(lambda y: y - z0 - h * g * self.f(ti, y),
                            lambda y: I - h * g * jac(ti, y, self.p), z0 + h * g * ks[-1])
            ks.append(self.f(ti, z))
        y1, err = y0.copy(), np.zeros_like(y0)
        for b, e, k in zip(tab["b"], tab["berr"], ks):
            y1 = y1 + (h * b) * k
            err = err + (h * e) * k
        return y1, err, None

    def dense(self, t0, t1, y0, y1, ts):
        """Dense output of one step (no memory needed): values at times ts, shape (len(ts), d)."""
        th = np.asarray([(t - t0) / (t1 - t0) for t in ts], float)
        if self.name not in DENSE:
            return y0 + th[:, None] * (y1 - y0)
        self.step(t0, t1, y0, None)
        out = np.tile(y0, (len(th), 1))
        pw = th[:, None] ** np.arange(DENSE[self.name][0].shape[1])
        for P, ks in zip(DENSE[self.name], self.ks):
            out = out + (pw @ P.T) @ ((t1 - t0) * np.asarray(ks))
        return out

    def _imex(self, tabs, t0, t1, h, y0):
        te, ti_ = tabs
        ke, ki = [], []
        self.ks = [ke, ki]
        I = np.eye(len(y0))
        for i in range(len(te["c"])):
            tE = t1 if te["c"][i] == 1.0 else t0 + te["c"][i] * h
            tI = t1 if ti_["c"][i] == 1.0 else t0 + ti_["c"][i] * h
            z = y0.copy()
            for a, k in zip(te["a"][i], ke):
                z = z + (h * a) * k
            for a, k in zip(ti_["a"][i], ki):
                z = z + (h * a) * k
            g = ti_["diag"][i]
            if g != 0.0:
                z0 = z
                z = _newton(lambda y: y - z0 - h * g * vf_im(tI, y, self.p),
                            lambda y: I - h * g * jac_im(tI, y, self.p), z0 + h * g * ki[-1])
            ke.append(vf_ex(tE, z, self.p))
            ki.append(vf_im(tI, z, self.p))
        y1, err = y0.copy(), np.zeros_like(y0)
        for tab, ks in ((te, ke), (ti_, ki)):
            for b, e, k in zip(tab["b"], tab["berr"], ks):
                y1 = y1 + (h * b) * k
                err = err + (h * e) * k
        return y1, err, None


IMPLICIT = {"ImplicitEuler", *ESDIRK, *IMEX}


def tol_for(name, f32=False):
    base = name[5:] if name.startswith("Half:") else name
    if f32:
        return 3e-4
    return 3e-7 if base in IMPLICIT else 1e-9


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))
