"""Freezes the dense-output polynomials of the Runge-Kutta methods of the pinned commit:
y(theta) = y0 + sum_i P_i(theta) k_i with k_i = h f_i.  Writes data/dense.json."""
import json, os, sys
sys.path.insert(0, "/repo")
import jax, numpy as np, jax.numpy as jnp
jax.config.update("jax_enable_x64", True)
import diffrax as dfx
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "data", "tableaus.json")))
out = {}
DEG = 8
th = 0.5 - 0.5 * np.cos(np.pi * np.arange(DEG + 1) / DEG)
for name, tab in T.items():
    cls = getattr(dfx, name)
    imex = isinstance(tab, list)
    tabs = tab if imex else [tab]
    res = []
    for j, tb in enumerate(tabs):
        s = len(tb["b"]); rows = []
        for i in range(s):
            k = [np.zeros(s) for _ in tabs]; k[j][i] = 1.0
            kk = tuple(jnp.asarray(x) for x in k) if imex else jnp.asarray(k[0])
            it = cls.interpolation_cls(t0=0.0, t1=1.0, y0=jnp.asarray(0.0), y1=jnp.asarray(float(tb["b"][i])), k=kk)
            v = np.array([float(it.evaluate(x)) for x in th])
            c = np.linalg.solve(np.vander(th, DEG + 1, increasing=True), v)
            c[np.abs(c) < 1e-9] = 0.0
            rows.append([float(x) for x in c])
        res.append(rows)
    out[name] = res
json.dump(out, open(os.path.join(V, "data", "dense.json"), "w"))
for n, r in out.items(): print(n, [len(x) for x in r], "deg", max(max(i for i, c in enumerate(row) if c) if any(row) else 0 for x in r for row in x))
