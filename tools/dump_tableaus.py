"""One-off: freeze the pinned commit's Butcher tableaus as reference data (the committed
JSON is the oracle; the checks never regenerate it)."""
import json, numpy as np, diffrax as dfx
out = {}
def tab(t):
    if t is None: return None
    if isinstance(t, dfx.MultiButcherTableau):
        return [tab(x) for x in t.tableaus]
    return dict(c=[0.0] + [float(x) for x in t.c],
                a=[[]] + [[float(v) for v in r] for r in t.a_lower],
                diag=None if t.a_diagonal is None else [float(x) for x in t.a_diagonal],
                c1=float(getattr(t, "c1", 0.0)),
                b=[float(x) for x in t.b_sol], berr=[float(x) for x in t.b_error])
for n in ["Heun","Midpoint","Ralston","Bosh3","Tsit5","Dopri5","Dopri8","Kvaerno3","Kvaerno4","Kvaerno5","KenCarp3","KenCarp4","KenCarp5","Sil3"]:
    out[n] = tab(getattr(dfx, n).tableau)
    x = out[n] if isinstance(out[n], list) else [out[n]]
    for y in x: print(n, len(y["c"]), y["c1"], y["diag"])
json.dump(out, open("/verif/data/tableaus.json", "w"))
