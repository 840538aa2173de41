"""Regenerates /verif/MANIFEST.json. A property is claimed iff checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Seeded search over accept/reject/size/jump scripts and faults on rejected attempts for every ODE method; every attempt of the real loop is compared with a numpy reference step. Trusts the frozen coefficient tables and numpy.",
 "C02": "Seeded search over SaveAt structures x schedules x stop points, compared with a small output model whose values come from reference steps and dense interpolation.",
 "C03": "Seeded fault injection (method failures, controller errors, NaNs, step limits, events) compared with a first-failure model; includes throw=True through the error path.",
 "C04": "Seeded crash/restart points against the uninterrupted run of the same schedule (differential), for every controller and stateful method.",
 "C05": "Seeded step_ts/jump_ts/rejection schedules on the real clip controller over scripted, PID and constant inner controllers; vector field queries are observed through a jump-sensitive right-hand side.",
 "C06": "Seeded query schedules against exact combination rules plus fixed-seed statistical tests with very small false-alarm probability.",
 "C07": "Differential: each vmap lane against the same solve alone, with faults injected in other lanes.",
 "C08": "Seeded event/direction/root-finder configurations on scripted schedules against an event model on the recorded history.",
 "C09": "Seeded error-estimate sequences (incl. 0, inf, NaN) against an independent PID model plus bounded-progress checks.",
 "C10": "Deterministic thread scheduler around real meters (recording bar back end), with concurrent and failing solves.",
 "C11": "Gradients under seeded schedules compared across checkpoint counts and adjoints and with the derivative of the replayed accepted steps.",
 "C12": "Differential: backward solve against the mirrored forward problem under the same script; strong-order check for SDEs.",
 "C13": "Dense output under seeded schedules against accepted states, SaveAt(ts) values and finite differences.",
 "C14": "Every attempted SDE step compared with a reference step fed from the same path, plus convergence on fixed paths.",
}
NA = {
 "N01": "A limit statement about discretisation error of smooth problems: no schedule, clock, I/O, fault or multi-party behaviour for a simulator to vary (C01/C14 check single steps against reference coefficients, which is the part that depends on schedules).",
 "N02": "Pure functions of their input arrays; no nondeterminism, time, I/O or state to simulate.",
 "N03": "A static check at call time on the structure of the arguments; nothing to schedule or fault.",
 "N04": "Text generation from the arguments; nothing to schedule or fault.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="deterministic simulation with fault injection (seeded schedule/fault search, executable reference model)",
            level="exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import diffrax'", checks=checks, not_applicable=na,
    notes="No hooks in /repo: all seams are diffrax's own extension points (custom step size controller, wrapped solver, custom path, custom progress meter, host callbacks). /repo carries only 'fix:' commits, listed in KNOWN_FINDINGS.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
