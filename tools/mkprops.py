import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="diffrax/_integrate.py"
p("C01","Accepted steps tile [t0, t1]; rejected steps leave no trace",
"For every solve that succeeds, the accepted steps start at the initial time, each starts at the time and state where the previous accepted step ended, they advance strictly, never pass the final time and end exactly at it; a rejected attempt changes nothing but the size of the next attempt, so every accepted step is the solver's step from the current time and state. A constant step size uses the requested step for every step but the last, and a prescribed list of times is stepped to exactly. The reported counts of steps, accepted and rejected steps equal what was done, and never exceed the maximum.",
["inputs","configurations","histories"],"all ODEs, solvers, step size controllers, intervals (either direction, any offset and scale), initial steps and accept/reject histories",
"The tests compare final values at a few settings; a lost, duplicated or overlapping step, stale first-stage information after a rejection, or a miscount shifts the answer by less than their tolerances or appears only after particular accept/reject patterns.",
[I,"diffrax/_step_size_controller/constant.py","diffrax/_solver/runge_kutta.py"],
[("integration loop book-keeping",I+":loop"),("clipping to the end",I+":_clip_to_end"),("constant/prescribed grids","diffrax/_step_size_controller/constant.py")],"a recording step size controller wrapped around the real one")
p("C02","SaveAt returns exactly the requested outputs at the requested times",
"Whatever combination of start, end, times and every-n-steps outputs is requested, in one or several sub-requests, the saved times are exactly the requested ones in order of integration, each once, and each saved value is the user's save function applied to the solution at that time (with the user's own time and arguments). Unused slots are filled with infinity, only after the used ones. Optional final solver/controller state is returned exactly when asked for.",
["inputs","configurations"],"all SaveAt/SubSaveAt combinations, time grids (duplicates, endpoints, coinciding with steps), save functions, solvers, controllers, directions, step histories",
"Tests check a few hand-written combinations on fixed-step solves; off-by-one buffer indices need specific coincidences between saved times and steps, maximum step counts, or several sub-requests at once.",
[I,"diffrax/_saveat.py","diffrax/_solution.py"],[("saving in the loop",I+":loop"),("output allocation",I+":diffeqsolve"),("SaveAt","diffrax/_saveat.py")],"Solution.ts / Solution.ys")
p("C03","Dense output matches the step values and interpolates at its stated order",
"The dense solution equals the accepted step values at every step boundary from both sides, agrees with values saved at explicit times, and inside each step is as accurate as documented for the solver's interpolation. Increments equal differences of values, derivatives equal the time derivative of the interpolation, and evaluating outside the solved interval gives NaN rather than a number.",
["inputs","configurations"],"all solvers with dense output, evaluation times (boundaries, interior, outside; left and right), directions of time, PyTree states, step histories",
"Tests compare a few solvers at loose tolerances on one problem, and the interpolation-accuracy tests are not part of the stable suite; a wrong interpolation coefficient or index leaves step values intact.",
["diffrax/_local_interpolation.py","diffrax/_global_interpolation.py","diffrax/_solver/dopri5.py","diffrax/_solver/dopri8.py","diffrax/_solver/tsit5.py","diffrax/_solver/kencarp3.py"],
[("local interpolation","diffrax/_local_interpolation.py"),("dense lookup","diffrax/_global_interpolation.py:DenseInterpolation"),("solver-specific interpolants","diffrax/_solver/*.py")],"Solution.evaluate / Solution.derivative / Solution.interpolation")
p("C04","Adaptive stepping accepts only steps within tolerance and obeys its limits",
"A step is accepted exactly when its error estimate, scaled by atol + rtol*max(|before|,|after|) and measured in the chosen norm, is below one (or when the step is already at the forced minimum size). The next step size is the current one times the documented PID factor, limited to the configured minimum/maximum factor and minimum/maximum step size; an unforced minimum step size is reported as a failure, and with no initial step given one is selected from the size of the state, the vector field and the tolerances by the standard starting-step algorithm. Tightening the tolerances tightens the error of the solution accordingly.",
["inputs","histories","configurations"],"all sequences of error estimates (zero, huge, infinite, NaN, near-one), tolerances, PID coefficients, factor and step limits, norms, initial step selections",
"Tests run a handful of smooth problems with default coefficients; formula slips in the factor, exponents, error history, or limits still give a solution within their loose tolerance.",
["diffrax/_step_size_controller/pid.py",I],[("accept/reject and factor","diffrax/_step_size_controller/pid.py:PIDController.adapt_step_size"),("initial step","diffrax/_step_size_controller/pid.py:_select_initial_step"),("NaN handling of errors",I+":loop")],"PIDController.init/adapt_step_size driven with adversarial histories, and recorded inside solves")
p("C05","Requested step and jump times are respected exactly",
"With requested step times, an accepted step ends exactly at each one inside the interval and none straddles it. With requested jump times inside the interval, no step contains or crosses a jump: one ends at the floating point number just before it, the next starts just after, nothing computed before the jump is reused after it, and piecewise-smooth problems are solved to the tolerance asked for. When rejected step locations are stored, every rejected location is later stepped to.",
["inputs","configurations","histories"],"all sets of step/jump times (clustered, at the ends, outside the interval, coinciding), both directions of time, tolerances, solvers with and without first-stage reuse, rejection histories",
"Tests use one or two times on one problem; index bookkeeping errors need clustered or coinciding times, a rejection next to a jump, or a jump at particular floating point positions.",
["diffrax/_step_size_controller/clip.py",I,"diffrax/_solver/runge_kutta.py"],[("clipping and jump bookkeeping","diffrax/_step_size_controller/clip.py"),("re-evaluation after jumps","diffrax/_solver/runge_kutta.py"),("made_jump propagation",I+":loop")],"recorded attempted steps and recorded vector field evaluation times")
p("C06","Every ODE solver has its advertised order, as has its error estimate",
"One step of each Runge-Kutta solver (explicit, implicit and implicit-explicit) reproduces the exact solution to its advertised order for every smooth vector field, including time-dependent and PyTree ones, and its embedded error estimate vanishes to the embedded order and not beyond. Every ODE solver converges at its advertised order, and to the exact solution, as the step size shrinks; step halving adds a valid error estimate.",
["inputs","configurations"],"all smooth vector fields (checked through all order conditions up to the order), all shipped ODE solvers, all step sizes in the asymptotic regime, fixed and variable steps",
"The convergence tests are not part of the stable suite and sample one problem at loose slopes; a slightly wrong coefficient or stage time keeps results plausible and convergent at a lower order.",
["diffrax/_solver/runge_kutta.py","diffrax/_solver/base.py","diffrax/_solver/dopri8.py","diffrax/_solver/kvaerno5.py","diffrax/_solver/kencarp5.py","diffrax/_solver/sil3.py","diffrax/_solver/leapfrog_midpoint.py","diffrax/_solver/reversible_heun.py"],[("Runge-Kutta stepping","diffrax/_solver/runge_kutta.py:AbstractRungeKutta.step"),("tableaus","diffrax/_solver/*.py"),("step halving","diffrax/_solver/base.py:HalfSolver")],"results of single steps and of fixed-step solves")
p("C07","SDE solvers take the documented step and converge to the right solution",
"Each SDE solver's step is its documented update of the state in terms of the increments (and Levy areas) supplied by the driving path, and as the step shrinks the numerical paths converge strongly to the exact Ito or Stratonovich solution - whichever the solver is documented for - of the same driving path, at least at the documented strong order for that kind of noise. This holds for scalar, diagonal, additive (also time-dependent) and general noise and in either direction of time.",
["inputs","configurations","histories"],"all drifts, diffusions of the stated kinds, Brownian paths, step sizes, solvers, PyTree structures, directions of time",
"The SDE tests are excluded from the stable suite and statistical; swapping Ito/Stratonovich corrections, a wrong coefficient or a sign error on the Levy area only lowers the order or shifts the limit slightly.",
["diffrax/_solver/srk.py","diffrax/_solver/milstein.py","diffrax/_solver/euler_heun.py","diffrax/_solver/euler.py","diffrax/_solver/heun.py","diffrax/_solver/shark.py","diffrax/_solver/shark_general.py","diffrax/_solver/slowrk.py","diffrax/_solver/spark.py","diffrax/_solver/sra1.py","diffrax/_solver/sea.py","diffrax/_term.py"],[("stochastic Runge-Kutta stepping","diffrax/_solver/srk.py"),("Milstein","diffrax/_solver/milstein.py"),("tableaus","diffrax/_solver/*.py")],"final and per-step values for a shared driving path")
p("C08","Brownian paths are fixed, additive and have the exact joint law",
"A virtual Brownian tree is one fixed path: repeated, reordered, batched or compiled queries agree; increments over adjacent intervals add up, and its space-time and space-time-time Levy areas combine over subintervals exactly as their integral definitions require. Over random keys, values and areas on any intervals have the mean, covariance and normality of Brownian motion at resolution coarser than the tolerance, independently across components and leaves, scaled to the path's interval; queries outside it are errors. The non-tree path likewise gives independent increments of the right law for each interval.",
["inputs","histories","configurations"],"all keys, interval ends, query sequences, shapes and PyTrees, dtypes, Levy area kinds, tolerances",
"The Brownian tests are excluded from the stable suite, and sample few fixed times; conditional-law errors appear only for particular query positions relative to the dyadic grid or for non-unit intervals.",
["diffrax/_brownian/tree.py","diffrax/_brownian/path.py","diffrax/_custom_types.py"],[("tree descent and conditional sampling","diffrax/_brownian/tree.py"),("direct sampling","diffrax/_brownian/path.py"),("increment types","diffrax/_custom_types.py")],"evaluate() of the two path classes")
p("C09","Events stop the solve at the first trigger, at the right time and state",
"The solve stops at the start, or on the first accepted step, at which a boolean condition is true or a real condition changes sign (in the requested direction), and never otherwise; exactly one - the first listed - triggered condition is reported. With a root finder the final time is where the triggering condition vanishes on the solution within that step, the final state is the solution there, and no output later than the event is reported. Conditions see the user's own time, state and arguments in either direction of time, and an event never hides a failure.",
["inputs","configurations"],"all condition functions, crossing directions, PyTrees of conditions, root finders, SaveAt requests, solvers, controllers, directions of time, batches with different event times",
"Tests use one or two scalar problems; wrong event selection, unsaved outputs, or direction logic show only for several conditions in one step, events coinciding with steps, batches, or backward time.",
[I,"diffrax/_event.py"],[("detection and root finding",I+":loop"),("initial evaluation",I+":diffeqsolve"),("steady state","diffrax/_event.py")],"Solution.ts/ys/event_mask/result")
p("C10","Gradients are those of the computed solution, for every adjoint method",
"Differentiating a solve through any discretise-then-optimise adjoint (checkpointed with any number of checkpoints, direct, forward mode) gives the derivative of the numerical output with respect to initial state, arguments, vector field parameters and times, and these methods agree with each other and with finite differences. The continuous and implicit adjoints agree with the exact sensitivities up to their solve tolerance. Choosing an adjoint never changes the forward result.",
["inputs","configurations"],"all vector fields, parameters, losses over saved outputs, solvers, controllers, SaveAt requests, adjoints and checkpoint counts",
"Tests compare adjoints on a couple of problems, some being skipped in this environment; a dropped cotangent (for example for one output slot, for t1, or for one term) needs a loss that depends on it.",
["diffrax/_adjoint.py",I,"diffrax/_solver/runge_kutta.py","diffrax/_term.py"],[("adjoint loops","diffrax/_adjoint.py"),("adjoint vector field","diffrax/_term.py:AdjointTerm")],"jax.grad / jax.jvp of diffeqsolve")
p("C11","Terms: products are bilinear and consistent, sums and wrappers compose",
"For every term, multiplying the vector field by the control equals the combined product, is linear in the control and consistent under addition of intervals of the control; a sum of terms acts as the sum of its parts; a controlled term's contraction equals the matrix-vector (or elementwise, or operator) product, whatever the PyTree, and its conversion to an ODE equals the vector field times the control's derivative. Vector fields and controls whose shapes cannot be combined with the state are rejected.",
["inputs","configurations"],"all term kinds, vector field and control shapes, PyTree structures, dtypes, times",
"Tests exercise a few shapes; contraction-axis or ordering errors are invisible for square, scalar or symmetric cases.",
["diffrax/_term.py","diffrax/_path.py"],[("terms","diffrax/_term.py")],"term methods vf, contr, prod, vf_prod, to_ode")
p("C12","Interpolation of user data passes through it with the documented formula",
"Linear, rectilinear, backward-Hermite and other cubic interpolations of data (including missing values and PyTrees) pass through every observed point, equal the documented piecewise formula between them, never use data later than the documented lookahead, and fill missing values by the documented rule at the start, middle and end. Increments equal differences and derivatives equal the derivative of the formula, from the requested side at knots.",
["inputs","configurations"],"all strictly increasing time grids, data with any pattern of missing values, fill and replacement options, evaluation times including knots and ends, left or right sides",
"The interpolation tests are excluded from the stable suite and use fixed examples; index and missing-value bookkeeping depends on the pattern.",
["diffrax/_global_interpolation.py","diffrax/_misc.py","diffrax/_path.py"],[("interpolations","diffrax/_global_interpolation.py"),("missing-value filling","diffrax/_misc.py")],"evaluate/derivative of the interpolation classes and coefficient helpers")
p("C13","Batching, compiling and restructuring a solve do not change its result",
"Each element of a batched solve equals the same solve done alone - steps, statistics, outputs, result and events - whatever its neighbours do. Compiling, splitting the state into a PyTree with an equivalent norm, adding unused arguments, or permuting and scaling independent components changes nothing beyond rounding, and dtypes and structures of the outputs follow the inputs.",
["inputs","configurations","programs"],"all batches (mixed lengths, directions, failures, events, jumps), PyTree layouts, dtypes, solvers and controllers",
"Tests batch two or three similar elements; cross-batch leakage through shared conditionals needs neighbours with different rejections, jumps, events or lengths.",
[I,"diffrax/_step_size_controller/clip.py","diffrax/_solver/runge_kutta.py","diffrax/_misc.py"],[("batched conditionals",I+":loop"),("static selection","diffrax/_misc.py:static_select"),("first-stage reuse under batching","diffrax/_solver/runge_kutta.py")],"vmapped versus single diffeqsolve")
p("C14","A solve split at a step and resumed continues identically",
"Splitting a solve at any accepted step, saving the final solver, controller and jump state, and resuming from it with the step size that would have been tried next gives the same remaining steps and values as the uninterrupted solve, for any number of splits; so does stepping the solver by hand. Saved state that is merely a cache can be omitted without changing the result.",
["histories","inputs","configurations"],"all split points, solvers (with and without memory), controllers, jump and rejection histories",
"Tests resume one solver at one point; stale or unsaved state needs a memory-carrying solver or controller and a split next to a rejection or jump.",
[I,"diffrax/_solver/leapfrog_midpoint.py","diffrax/_solver/reversible_heun.py","diffrax/_solver/runge_kutta.py","diffrax/_step_size_controller/pid.py"],[("state in and out",I+":diffeqsolve"),("solver states","diffrax/_solver/*.py"),("controller state","diffrax/_step_size_controller/*.py")],"Solution.solver_state/controller_state/made_jump and outputs")
p("C15","Integrating backwards equals integrating the time-reversed problem forwards",
"Solving from t0 to a smaller t1 takes the same steps and gives the same values as solving forwards the problem with time negated - for ordinary, controlled and (Stratonovich) stochastic equations with the same driving path traversed backwards, every solver, controller with step or jump times, saving request, dense output and event. Shifting time, together with everything that depends on it, changes nothing either.",
["inputs","configurations"],"all problems, solvers, controllers, time-dependent vector fields and controls, SaveAt and event functions",
"Tests cover backward time for a few ODE settings; any component that uses a normalised time or unsigned increment goes wrong only for reversed solves of that component.",
[I,"diffrax/_term.py","diffrax/_global_interpolation.py","diffrax/_step_size_controller/clip.py","diffrax/_solver/srk.py"],[("time normalisation",I+":diffeqsolve"),("time-reversing terms","diffrax/_term.py:WrapTerm"),("controller direction","diffrax/_step_size_controller/*.py")],"paired forward/backward diffeqsolve calls")
p("C16","Success is reported only for complete solves; failures are reported as such",
"A solve is reported successful only if it reached the final time with every implicit equation of the accepted steps solved; running out of steps, hitting the minimum step size, non-finite vector fields under adaptive stepping or a diverging implicit solve under fixed steps are each reported with their own result, as an exception when throwing is requested and as a value otherwise. Output saved before the step that failed is still right and nothing is saved beyond that step. A step budget that is exactly enough succeeds and one less fails.",
["inputs","fault_sequences","configurations"],"all failure kinds injected at any time of the solve, step budgets, solvers, controllers, batches with mixed outcomes",
"Tests inject few failures at fixed points; a failure swallowed on a particular step (first, last, rejected, or together with an event) returns plausible numbers.",
[I,"diffrax/_solution.py","diffrax/_step_size_controller/pid.py","diffrax/_root_finder/_verychord.py","diffrax/_solver/runge_kutta.py"],[("result propagation",I+":loop"),("result codes","diffrax/_solution.py"),("implicit failure","diffrax/_solver/runge_kutta.py")],"Solution.result, exceptions, Solution.stats")
p("C17","Ill-posed requests are rejected instead of silently solved",
"Requests the documentation declares invalid - wrong-signed initial step, save times outside the interval or out of order, unbounded steps with step-wise or dense saving, terms that do not fit the solver, stochastic terms with unsuited solvers, controllers or adjoints, fixed steps without an initial step or with unspecified implicit tolerances, inconsistent step lists or events - raise an error in either direction of time and under compilation. The neighbouring valid requests are accepted.",
["inputs","configurations"],"all invalid variants of otherwise valid requests, and valid requests at the boundary",
"Tests check single examples eagerly; a check that is lost for one direction of time, boundary value or sub-request accepts a wrong problem silently.",
[I,"diffrax/_saveat.py","diffrax/_adjoint.py","diffrax/_event.py","diffrax/_step_size_controller/constant.py","diffrax/_step_size_controller/clip.py","diffrax/_brownian/tree.py"],[("argument checking",I+":diffeqsolve"),("term compatibility",I+":_assert_term_compatible"),("adjoint compatibility","diffrax/_adjoint.py")],"exceptions from the public API")
p("C18","Underdamped Langevin solvers converge at their order for any friction and step",
"The Langevin solvers converge strongly, for the same Brownian path, to the solution of the underdamped Langevin equation at their documented order for smooth potentials, for scalar, vector and PyTree friction and damping and for varying step sizes. Switching between their small-step expansion and direct coefficient formulas never changes the step beyond the accuracy of the expansion, and coefficients always correspond to the step actually taken.",
["inputs","configurations","histories"],"all potentials, friction/damping values and shapes, step size sequences, Brownian paths",
"The Langevin tests are excluded from the stable suite; a wrong expansion coefficient matters only below the switching threshold and a stale coefficient only when the step size changes.",
["diffrax/_solver/foster_langevin_srk.py","diffrax/_solver/align.py","diffrax/_solver/should.py","diffrax/_solver/quicsort.py","diffrax/_term.py"],[("coefficients","diffrax/_solver/foster_langevin_srk.py"),("steps","diffrax/_solver/{align,should,quicsort}.py"),("terms","diffrax/_term.py")],"single steps and solves")
p("C19","Implicit steps solve their equations; structure-preserving solvers preserve",
"A step of an implicit solver that is reported successful satisfies its implicit stage equations to the requested root-finding tolerance, and stiff decaying problems remain stable at step sizes far beyond the explicit limit. Symplectic Euler's step preserves the symplectic form exactly, and the reversible solvers retrace their steps when run backwards; their documented error estimates and states are consistent.",
["inputs","configurations"],"all stiff and nonlinear vector fields, step sizes, root finders and tolerances; all separable systems for the structure-preserving solvers",
"Tests check end values on mild problems; an implicit solve that stops early or uses a stale linearisation only loses accuracy within tolerance, and structure loss shows up only over long times.",
["diffrax/_solver/runge_kutta.py","diffrax/_solver/implicit_euler.py","diffrax/_root_finder/_verychord.py","diffrax/_solver/semi_implicit_euler.py","diffrax/_solver/reversible_heun.py","diffrax/_solver/leapfrog_midpoint.py"],[("implicit stages","diffrax/_solver/runge_kutta.py"),("root finder","diffrax/_root_finder/_verychord.py"),("reversible/symplectic steps","diffrax/_solver/*.py")],"single steps")
p("C20","Progress meters report true progress and never disturb the solve",
"A progress meter starts once at zero, reports only non-decreasing values in [0, 1] that equal the fraction of the interval covered by the slowest batch element, finishes exactly once at completion, and releases its resources - also when solves are batched, repeated, differentiated, or run from several threads at once. Using a meter changes neither the solution nor its statistics.",
["schedules","inputs","configurations"],"all solves, batches, numbers of concurrent solves, refresh settings",
"Tests look at one printed run; interleaved meters, batches with different lengths and leaks need concurrent and repeated solves.",
["diffrax/_progress_meter.py",I],[("meter manager","diffrax/_progress_meter.py:_ProgressMeterManager"),("progress computation",I+":loop")],"captured meter output and host-side meter registry")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); assert n<=3,(x['id'],n)
print(len(P))
