"""Regenerates /verif/properties.jsonl (kept as code so that long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mechanism, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

INT="diffrax/_integrate.py"
p("C01", "Solution is the composition of the accepted steps, nothing else",
  "For every sequence of accept/reject decisions and step sizes made by the step size controller, the accepted steps tile [t0, t1] without gap or overlap, each attempt starts from the last accepted state, each attempted step is exactly one step of the chosen method over that interval, and a rejected attempt leaves no trace in the state, in any cached method data (first-same-as-last values, multistep history, step coefficients), in jump flags or in the output. The reported statistics equal the numbers of attempts, acceptances and rejections, the final time is reached exactly and never overshot.",
  ["schedules","histories","configurations","fault_sequences"],
  "All accept/reject/step-size sequences, for every built-in ODE method (explicit, implicit, IMEX, symplectic, reversible, multistep, wrapped), scalar/vector/pytree states, forward and backward time.",
  "Tests use the two built-in controllers on smooth problems, where rejected steps are rare and never follow an adversarial pattern; equality is only tested against loose convergence tolerances.",
  [INT,"diffrax/_solver/runge_kutta.py","diffrax/_solver/base.py","diffrax/_solver/reversible_heun.py","diffrax/_solver/leapfrog_midpoint.py","diffrax/_solver/semi_implicit_euler.py","diffrax/_solver/implicit_euler.py"],
  [("State.y/solver_state/made_jump/tprev/tnext","the live integration state","diffrax/_integrate.py:State")],
  [("keep/not-keep selection after each attempt",INT+":loop.body_fun_aux"),("clipping to t1",INT+":_clip_to_end"),("FSAL reuse unless jump or rejection","diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step")],
  ["Solution.ts/ys/stats","the controller's view of every attempt"])
p("C02", "Requested outputs are saved exactly once, in order, with the right value",
  "For every SaveAt specification (t0, t1, ts, steps=n, custom fn, several sub-specifications) and every step schedule, each requested output is recorded exactly once, in time order, at the right time and with the value of the solution there; unused slots are +inf at the end of the buffer. If the solve stops early (failure, step limit, event) the recorded outputs are exactly those due by the accepted steps made so far (up to the located event time).",
  ["schedules","configurations","inputs","fault_sequences"],
  "All SaveAt structures x all step schedules (many requested times inside one step, on step boundaries, repeated, equal to t0 or t1; early stops at every attempt; t0 == t1).",
  "Tests fix a few SaveAt shapes with constant or PID steps; the alignment of requested times, saved steps, rejections and stopping points is never varied.",
  [INT,"diffrax/_saveat.py","diffrax/_local_interpolation.py"],
  [("SaveState.save_index/saveat_ts_index","write cursors of the output buffers",INT+":SaveState")],
  [("save_ts/save_steps/_save_t1/unsave",INT+":loop")],
  ["Solution.ts","Solution.ys"])
p("C03", "Failures are reported faithfully, and only real failures are",
  "If the method or the controller reports an error on a step that counts, the solve stops there, reports the first such error and never reports success or an event instead; errors of the method on steps that are then rejected are retried and not reported. Success is reported if and only if t1 was reached, the step limit if and only if it ran out before t1; with throw=True a failing solve raises and a successful one does not.",
  ["fault_sequences","schedules","crash_points","configurations"],
  "Every placement of method failures, non-finite values, controller errors and step-limit exhaustion over every accept/reject schedule, with and without events and jumps, for every adjoint.",
  "Tests inject at most one failure of one kind on a fixed schedule.",
  [INT,"diffrax/_solution.py","diffrax/_step_size_controller/pid.py","diffrax/_solver/implicit_euler.py","diffrax/_solver/runge_kutta.py"],
  [("State.result","first failure so far",INT+":State")],
  [("result bookkeeping",INT+":loop.body_fun_aux"),("error_if(throw)",INT+":diffeqsolve")],
  ["Solution.result","exceptions"])
p("C04", "An interrupted solve can be resumed as if it had never stopped",
  "Stopping a solve after any number of steps (step limit or splitting the interval) and restarting it from the returned final value together with the returned solver state, controller state and jump flag (and dt0 set to the size of the step that was due next) continues the same trajectory: the concatenated steps, outputs and final value equal those of the uninterrupted solve. Restarting repeatedly has the same property.",
  ["crash_points","schedules","histories"],
  "Every interruption point (including right after a rejection, a jump, or several interruptions) for every stateful method and controller, ODE and SDE.",
  "Only a single split at one point is tested for one or two solvers.",
  [INT,"diffrax/_saveat.py","diffrax/_step_size_controller/clip.py","diffrax/_step_size_controller/pid.py","diffrax/_solver/runge_kutta.py","diffrax/_solver/reversible_heun.py","diffrax/_solver/leapfrog_midpoint.py"],
  [("solver_state, controller_state, made_jump","everything that survives the stop","diffrax/_solution.py:Solution")],
  [("passed_solver_state / passed_controller_state",INT+":diffeqsolve")],
  ["Solution.solver_state","Solution.controller_state","Solution.made_jump"])
p("C05", "Prescribed step and jump times are always respected",
  "With a ClipStepSizeController around any controller, every time in step_ts and jump_ts inside the interval is the end of an accepted step (the adjacent floating point number just before it for jump_ts, also for the first step and after resuming), the vector field is never evaluated across or on the wrong side of a jump time, cached evaluations are refreshed after it, and otherwise the inner controller's steps are taken unchanged. With store_rejected_steps every rejected time is later stepped to exactly, or the solve fails with the documented buffer-overflow error.",
  ["schedules","configurations","inputs","histories"],
  "All behaviours of the inner controller (any accept/reject/size sequence), any sorted or unsorted, dense, repeated or out-of-range step_ts/jump_ts, any buffer size, forward and backward time.",
  "Tests use a real PID controller and a few jump times far apart; rejections right at a clipped time practically never happen.",
  ["diffrax/_step_size_controller/clip.py",INT],
  [("step_info/jump_info/reject stack","cursors into prescribed times and stored rejections","diffrax/_step_size_controller/clip.py:_ClipState")],
  [("_clip_t / _clip_step_ts / _clip_jump_ts / revisit","diffrax/_step_size_controller/clip.py")],
  ["sequence of accepted steps","times at which the vector field is evaluated"])
p("C06", "Brownian noise is one consistent path under any query schedule",
  "A virtual Brownian tree behaves as one fixed sample path: whatever intervals are queried, in whatever order, batch, restart or retry, the increments (and space-time / space-time-time Levy areas) are reproducible, additive over adjacent intervals by the exact combination rules, depend only on the key, and different keys, shapes and components give independent noise with the Brownian law. The unsafe path likewise returns the same value for the same query and draws with the right law.",
  ["schedules","histories","inputs","configurations"],
  "All query schedules (nested, overlapping, repeated, tiny, at and between the finest grid points, outside order), keys, shapes and Levy-area kinds, including those produced by step rejection and restart in an SDE solve.",
  "Statistical tests use a fixed family of queries on a few keys; consistency between arbitrary query sets is not tested.",
  ["diffrax/_brownian/tree.py","diffrax/_brownian/path.py","diffrax/_brownian/base.py","diffrax/_misc.py","diffrax/_custom_types.py"],
  [("none (stateless tree descent)","path is a pure function of key and time","diffrax/_brownian/tree.py")],
  [("tree descent and bridge sampling","diffrax/_brownian/tree.py:VirtualBrownianTree"),("interval combination","diffrax/_brownian/tree.py:_levy_diff")],
  ["AbstractBrownianPath.evaluate","accepted noise of an SDE solve"])
p("C07", "Batched solves do not influence each other",
  "Solving a batch with vmap gives every element exactly what it would get when solved alone (times, values, padding, statistics, result, event mask, returned states and dense output), whatever the other elements do: different step schedules, failures, non-finite values, events, early or late termination, empty intervals.",
  ["schedules","fault_sequences","configurations"],
  "All combinations of per-element schedules and faults, batch sizes and orders, for every kind of batched argument (initial value, times, arguments, controller, key).",
  "Batched tests use homogeneous well-behaved elements.",
  [INT,"diffrax/_event.py","diffrax/_solver/runge_kutta.py","diffrax/_step_size_controller/clip.py","diffrax/_solver/foster_langevin_srk.py"],
  [("whole loop state, per batch element","",INT+":State")],
  [("unvmap_any/unvmap_all fast paths, buffer writes under predicates",INT)],
  ["every field of Solution"])
p("C08", "Events stop the solve at the first trigger, and nowhere else",
  "The solve stops at the first accepted step after which some event condition triggers (boolean: becomes true, including at t0; real: changes sign, only in the requested direction if one is given), never earlier or later; the first triggering condition in order is the only one flagged. With a root finder the final time is the located crossing inside that step and the final value is the solution there, outputs after it are dropped; condition functions see the actual time, state and arguments.",
  ["schedules","inputs","configurations"],
  "All step schedules x all placements of crossings (in any step, several per step, several events, at step ends, during rejected attempts), directions, root finders, forward and backward time.",
  "Tests trigger one event in a fixed place with constant steps, forward in time only.",
  [INT,"diffrax/_event.py"],
  [("event_values/event_mask/event_tprev/event_tnext/event_dense_info","last step's event data",INT+":State")],
  [("sign-change test, root find, unsave",INT+":loop")],
  ["Solution.ts/ys/event_mask/result"])
p("C09", "Adaptive step control is safe and makes progress",
  "For every sequence of error estimates (including zero, infinite and NaN) the PID controller accepts exactly the steps whose scaled error is below one (or that are forced at dtmin), never accepts a non-finite estimate otherwise, shrinks after a rejection, changes the step size only within [factormin, factormax] and [dtmin, dtmax], and reports failure exactly when a rejected step calls for a step size below dtmin without permission to force it. Once error estimates become small again it reaches t1 within the number of steps these bounds imply.",
  ["schedules","fault_sequences","inputs","configurations"],
  "All sequences of error estimates as produced by faulty or benign methods, all coefficient settings, norms, tolerances, pytrees, forward and backward time.",
  "Tests run the controller on a few smooth problems, where the error sequence is benign.",
  ["diffrax/_step_size_controller/pid.py","diffrax/_step_size_controller/base.py",INT],
  [("controller state: at_dtmin, previous inverse errors","","diffrax/_step_size_controller/pid.py")],
  [("factor computation and clipping","diffrax/_step_size_controller/pid.py:PIDController.adapt_step_size"),("NaN error to inf",INT+":loop.body_fun_aux")],
  ["sequence of (interval, error, accepted) attempts","Solution.result"])
p("C10", "Progress meters track each solve and only that solve",
  "Every solve with a progress meter opens its own bar once, reports non-decreasing progress between 0 and 100% that corresponds to the time reached, and closes it exactly once when it ends, whether it succeeds, stops at an event or fails; concurrent solves (threads, batches, or one after another) never see each other's bars and leave no live bar behind. A meter never changes the numerical result.",
  ["schedules","fault_sequences","histories"],
  "All interleavings of host callbacks of concurrent solves, batch sizes, refresh settings and early terminations.",
  "Tests run one solve at a time in one thread and inspect its printed output.",
  ["diffrax/_progress_meter.py",INT],
  [("module-level table of live bars","idx -> bar","diffrax/_progress_meter.py:_ProgressMeterManager")],
  [("lock and index allocation","diffrax/_progress_meter.py")],
  ["printed output / tqdm calls","bars left after the run"])
p("C11", "Gradients do not depend on how the backward pass is scheduled",
  "The derivative of a solve is the same for every number of checkpoints, for every exact differentiation mode (checkpointed reverse, direct reverse or forward, forward mode) and equals the derivative of the sequence of accepted steps; rejected attempts, saving pattern and early termination contribute nothing, and it stays finite when rejected attempts produced non-finite values. Backsolve gradients agree to discretisation error.",
  ["schedules","configurations","fault_sequences"],
  "All checkpoint counts x step schedules x output patterns x placements of rejected (possibly non-finite) attempts.",
  "Gradient tests compare modes on one or two smooth problems with default checkpointing.",
  ["diffrax/_adjoint.py",INT,"diffrax/_solver/runge_kutta.py"],
  [("checkpoints / residuals","what the backward pass replays","diffrax/_adjoint.py")],
  [("checkpointed while loop, buffers",INT+":_outer_buffers"),("adjoint.loop","diffrax/_adjoint.py")],
  ["jax.grad / jax.jvp of diffeqsolve"])
p("C12", "Solving backwards in time mirrors solving forwards",
  "Solving from t0 down to t1 < t0 gives, for every schedule, exactly the mirror image of the forward solve of the time-reversed problem: same accepted and rejected steps, saved times and values, dense output, prescribed step/jump times, events and failures; for SDEs the same Brownian path (with Levy areas transformed correctly) is used, so a path solved backwards converges at the same strong order.",
  ["schedules","configurations","inputs"],
  "All schedules, SaveAt structures, controllers, events and noise types under time reversal.",
  "Reverse-time tests cover a few ODE solves without events, jumps, rejections or Levy areas.",
  [INT,"diffrax/_term.py","diffrax/_step_size_controller/clip.py","diffrax/_step_size_controller/pid.py","diffrax/_global_interpolation.py"],
  [("direction","sign applied to all times",INT+":diffeqsolve")],
  [("time normalisation and WrapTerm",INT+":diffeqsolve"),("wrap(direction)","diffrax/_step_size_controller")],
  ["Solution of the mirrored pair"])
p("C13", "Dense output is the solution on every accepted step",
  "For every step schedule the dense interpolant covers exactly the time span integrated, equals the accepted states at step ends, agrees on each accepted step with the value the solver would have saved there through SaveAt(ts=...), is continuous except at jumps where left and right limits are the values on either side, gives consistent increments and derivatives, and is NaN outside the span. Rejected attempts never appear in it.",
  ["schedules","configurations","inputs"],
  "All schedules, methods, query times (on, just left and right of step ends, outside), left/right conventions, early stops, forward and backward time.",
  "Tests query dense output of a few well-behaved solves on a fixed grid.",
  ["diffrax/_global_interpolation.py","diffrax/_local_interpolation.py",INT],
  [("dense_ts/dense_infos/dense_save_index","recorded accepted steps",INT+":State")],
  [("DenseInterpolation lookup","diffrax/_global_interpolation.py"),("buffer writes under keep_step",INT)],
  ["Solution.evaluate","Solution.derivative"])
p("C14", "SDE solves follow one driving path under every step schedule",
  "In an SDE solve every attempted step uses the increments (and Levy areas) of the one Brownian path given, over exactly the attempted interval, for every method; hence the result depends only on the accepted steps, two schedules on the same path converge to the same solution at the method's strong rate, and rejected attempts neither consume nor bias the noise.",
  ["schedules","histories","configurations"],
  "All accept/reject/step-size schedules, all SDE methods and noise structures (additive, diagonal, general, Langevin), keys, restarts.",
  "SDE tests use constant steps; adaptive SDE solves are only spot-checked.",
  ["diffrax/_solver/srk.py","diffrax/_solver/milstein.py","diffrax/_solver/euler_heun.py","diffrax/_solver/foster_langevin_srk.py","diffrax/_solver/align.py","diffrax/_solver/should.py","diffrax/_solver/quicsort.py","diffrax/_term.py","diffrax/_brownian/tree.py"],
  [("Langevin coefficients and cached gradient","recomputed when the step size changes","diffrax/_solver/foster_langevin_srk.py:SolverState")],
  [("contr over the attempted interval","diffrax/_term.py:ControlTerm")],
  ["Solution.ys under a recorded schedule"])
# --- not claimed
p("N01", "Every method attains its stated order of convergence",
  "On smooth problems the global error of each method decreases at its documented order as the step size goes to zero.",
  ["inputs","configurations"], "All smooth problems and methods.",
  "Tests sample a few problems; the statement is about coefficient tables, a pure function of the input.",
  ["diffrax/_solver"],[],[("Butcher tableaus","diffrax/_solver/*.py")],["global error"])
p("N02", "Interpolation of given data passes through the data",
  "Linear, rectilinear and cubic Hermite interpolation of an observed time series pass through the (filled) data and have the documented derivatives and missing-value behaviour.",
  ["inputs"], "All time series, including missing values.",
  "Tests sample a few series; it is a pure function of its input.",
  ["diffrax/_global_interpolation.py"],[],[("coefficients","diffrax/_global_interpolation.py")],["interpolation values"])
p("N03", "Incompatible terms and solvers are rejected at call time",
  "Passing terms whose structure does not match what the solver expects raises an error before any step is made, and compatible ones are accepted.",
  ["programs","inputs"], "All combinations of terms, solvers and states.",
  "Tests list some combinations; decided purely by static structure.",
  [INT,"diffrax/_typing.py"],[],[("_assert_term_compatible",INT)],["exceptions"])
p("N04", "Automatic citation lists the methods actually used",
  "citation() prints references for exactly the components passed to it.",
  ["inputs"], "All argument combinations.",
  "Pure function of its arguments.",
  ["diffrax/_autocitation.py"],[],[("citation rules","diffrax/_autocitation.py")],["printed text"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
