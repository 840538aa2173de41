"""One-off: freeze the stochastic Butcher tableaus (data/srk.json) of the pinned commit."""
import json, os, sys
sys.path.insert(0, "/repo")
import numpy as np, diffrax as dfx
from diffrax._solver.srk import AdditiveCoeffs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = lambda x: None if x is None else np.asarray(x, float).tolist()
def co(c):
    if c is None: return None
    if isinstance(c, AdditiveCoeffs): return dict(a=L(c.a), b=float(c.b_sol), berr=None)
    return dict(a=[[]] + [L(r) for r in c.a], b=L(c.b_sol), berr=L(c.b_error))
out = {}
for n in ["SEA", "SRA1", "ShARK", "GeneralShARK", "SlowRK", "SPaRK"]:
    t = getattr(dfx, n).tableau
    out[n] = dict(additive=bool(t.is_additive_noise()), c=[0.0] + L(t.c), a=[[]] + [L(r) for r in t.a], b=L(t.b_sol), berr=L(t.b_error),
                  w=co(t.coeffs_w), hh=co(t.coeffs_hh), kk=co(t.coeffs_kk))
    print(n, {k: v for k, v in out[n].items()})
json.dump(out, open(os.path.join(V, "data", "srk.json"), "w"))
