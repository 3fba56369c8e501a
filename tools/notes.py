NOTE["C01"] = ("runtime monitoring: recorded step history + offline trace oracle",
  "Every attempted step of real solves is logged by a wrapping controller and the history is judged offline; holds on the explored solvers, controllers, intervals and accept/reject histories, not proved for all.")

NOTE["C02"] = ("runtime monitoring: recorded step history + reference output reconstructed offline",
  "Saved times and values of real solves are compared with what the recorded steps and the dense interpolation say they must be; random sub-requests, both directions, batched; sampled, not proved.")
NOTE["C03"] = ("runtime monitoring: probes of real dense output against step log, polynomial and rooted-tree oracles",
  "Dense output of real solves is probed at both sides of every knot, inside, outside, and on rooted-tree equations whose exact solution is known; sampled, not proved.")
NOTE["C04"] = ("runtime monitoring: online reference controller replayed over logged attempts of real solves and of the real controller under hostile error histories",
  "Every attempt (error estimate, state before/after, decision, next step) is recorded and re-judged by an independent NumPy controller; sampled histories, not proved.")
NOTE["C05"] = ("runtime monitoring: two step recorders around and inside the clipping controller, poisoned vector fields, offline trace oracle",
  "Attempts of real solves with hostile sets of step/jump times and scripted rejections are logged and judged offline; vector fields return NaN at the jumps so that any evaluation there shows; sampled, not proved.")
NOTE["C06"] = ("runtime monitoring: recorded steps of real solves judged against rooted-tree exact solutions, convergence families against a reference integrator",
  "One recorded step on the rooted-tree system observes all order conditions at once (so every smooth field up to the order); convergence on sampled nonlinear problems.")
NOTE["C07"] = ("runtime monitoring: recorded SDE steps re-derived offline from a tabulated Brownian path; strong-error families over sampled paths",
  "Every step of real solves over a user-written Brownian path with known W, H, K is compared with the documented update in NumPy; strong order measured against exact or finely resolved solutions of the same path; sampled, not proved.")
NOTE["C08"] = ("runtime monitoring: statistical and algebraic monitors over recorded queries of real Brownian paths",
  "Chen-relation and determinism identities on every recorded query; moments, covariance, kurtosis and KS tests over thousands of keys at 6 sigma or more; statistical, not proved.")

NOTE["C09"] = ("runtime monitoring: recorded step history of the event-free solve, conditions re-evaluated offline, real event solve compared",
  "The logged history of the same solve without the event says where the solve must stop, which condition to report and what output may remain; condition callbacks are recorded; failures are injected on the very step of the event; sampled, not proved.")
NOTE["C10"] = ("runtime monitoring: derivatives of real solves through every adjoint judged against finite differences of the same run and independent sensitivities",
  "Directional derivatives with respect to state, arguments, vector field parameters and times are compared with fourth-order differences of the numerical output (adaptive: replaying the recorded accepted steps); continuous/implicit adjoints against an independent integrator and the implicit function theorem; sampled, not proved.")
NOTE["C11"] = ("runtime monitoring: calls of real terms with random PyTrees, shapes, operators and controls replayed in NumPy; equivalent solves compared",
  "Every product, increment and sum that a real term returns is recomputed independently; the same controlled equation is solved in every representation; sampled, not proved.")
NOTE["C12"] = ("runtime monitoring: real interpolation routines on random data with missing values, every value recomputed in NumPy; perturbed-future comparison",
  "Values, one-sided derivatives, coefficients and filled data from random times, PyTrees and missing patterns are compared with the documented piecewise formula; later data are changed and earlier output must be bit-identical; sampled, not proved.")
NOTE["C13"] = ("runtime monitoring: differential runs of real solves (batched/alone, compiled/eager, restructured/flat) with recorded histories",
  "Each batch mixes lengths, directions, failures, rejections, jumps and events so that shared conditionals are exercised; every element's outputs, statistics and step history are compared with its own solve alone; sampled, not proved.")
NOTE["C14"] = ("runtime monitoring: recorded history of the uninterrupted solve against the histories of its resumed pieces and of hand-stepping",
  "Real solves are cut at accepted steps and by step budget (also right after rejections and jumps), resumed from the state they saved, and every step, output, state and statistic is compared with the recorded uninterrupted solve; sampled, not proved.")
NOTE["C15"] = ("runtime monitoring: paired real solves of one problem on negated and shifted clocks, every output compared",
  "The same compiled solve is run on the original, negated and shifted clock (vector fields, controls, Brownian paths, step/jump/save times, events all moved with it); steps, outputs, dense values, derivatives, statistics and gradients must coincide; shifted adaptive solves are judged to tolerance only; sampled, not proved.")
NOTE["C16"] = ("runtime monitoring with fault injection: step budgets one short, poisoned vector fields, failing stages, solvers and controllers in real solves, results and saved output judged against the recorded healthy solve",
  "Faults strike every stage of every step, any attempt, rejected attempts and the last step; the result, number of attempts, saved prefix and absence of later output are compared with the recorded healthy history, and accepted implicit steps are re-checked against their equation; sampled, not proved.")
NOTE["C17"] = ("runtime monitoring: paired valid and invalid requests sent with traced values to compiled real solves, a table oracle on which must raise",
  "Each request whose validity depends on run-time values is sent to one compiled solve alone and as an element of a batch, forwards and backwards, including violations of one unit in the last place and NaN; the neighbouring valid request must be accepted and answered as asked; structural violations are table-driven through the public API; sampled, not proved.")
NOTE["C18"] = ("runtime monitoring: every real Langevin step recomputed with extended-precision exact coefficients; offline strong-order estimation over sampled paths",
  "Real steps and whole real solves (fixed, adaptive, with jumps and HalfSolver, stale-coefficient histories, units over 17 decades, friction structures, both sides of the switching threshold) are compared with the documented formula evaluated in long double, allowing only the truncation of the documented expansion; orders are estimated statistically; sampled, not proved.")
NOTE["C19"] = ("runtime monitoring: residual oracle on every successful implicit step, symplecticity and retracing oracles on recorded step maps",
  "Each real implicit step that reports success is compared with the stage equations solved independently to full precision over twelve decades of stiffness, alone and inside adaptive and batched solves; Jacobians of whole-solve maps are tested for symplecticity and reversible solvers are retraced; sampled, not proved.")
NOTE["C20"] = ("runtime monitoring: captured meter output matched online against recorded step history; host-side registries watched for leaks under concurrent solves",
  "Everything the built-in meters print in real solves (jit, vmap, grad, batches, failures, concurrent threads, refresh settings) is parsed and matched against the true fraction covered; results and gradients are compared bit-for-bit or to rounding with the solve without a meter; sampled, not proved.")
