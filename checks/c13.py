"""C13: batching, compiling and restructuring a solve do not change its result.

The same real solve is run alone and inside batches with hostile neighbours (reversed in time, of zero length, failing in
every way, terminated by an event, much longer), and in equivalent forms; everything it returns is compared.
"""
import zlib

import numpy as np

PROPERTY = "C13"
RULE = ("one evaluation = one element of a batched (or compiled, split, padded, permuted, scaled) solve against the same solve alone; "
        "distinct = (configuration, kind of element, what is batched); non-trivial = at least one step taken or a failure")
ASSUMPTIONS = ["accept/reject decisions are not within rounding of the threshold (the data are random)"]
MIN_EVENTS = {"batch_elements": 250, "neighbour_kinds": 10, "batched_steps": 2000, "events_fired": 10, "failures": 25, "compiled": 12,
              "pytree_splits": 8, "unused_args": 6, "permuted": 6, "scaled": 6, "stacked": 6, "dtypes": 40, "nested": 2, "gradients": 3}

NAMES = ["successful", "max_steps_reached", "dt_min_reached", "event_occurred", "max_steps_rejected", "internal_error",
         "nonlinear_max_steps_reached", "nonlinear_divergence", "singular", "breakdown"]

# name -> (solver, kind of problem, controller, options)
CFG = {
    "tsit5-pid-steps": dict(s="Tsit5", c="pid", save="steps", jump=False),
    "dopri5-pid-ts": dict(s="Dopri5", c="pid", save="ts"),
    "dopri8-pi-t1": dict(s="Dopri8", c="pi", save="t1", auto=True),
    "bosh3-pid-t1": dict(s="Bosh3", c="pid", save="t1"),
    "bosh3-jump-dense": dict(s="Bosh3", c="pid", save="dense", jump=True),
    "heun-event": dict(s="Heun", c="pid", save="every", event="root"),
    "tsit5-event-fixed": dict(s="Tsit5", c="const", save="ts", event="bool"),
    "dopri5-event-many": dict(s="Dopri5", c="pid", save="ts", event="many", jump=True),
    "kvaerno5-pid": dict(s="Kvaerno5", c="pid", save="ts"),
    "kvaerno3-event": dict(s="Kvaerno3", c="pid", save="t1", event="root"),
    "kencarp4-pid": dict(s="KenCarp4", c="pid", save="every"),
    "impeuler-const": dict(s="ImplicitEuler", c="const", save="ts"),
    "revheun-pid": dict(s="ReversibleHeun", c="pid", save="ts"),
    "leapfrog-const": dict(s="LeapfrogMidpoint", c="const", save="every"),
    "sie-stepto": dict(s="SemiImplicitEuler", c="stepto", save="steps"),
    "halfeuler-pid": dict(s="Half(Euler)", c="pid", save="every"),
    "sde-shark": dict(s="sde:GeneralShARK", c="const", save="ts"),
    "sde-spark-pid": dict(s="sde:SPaRK", c="pid", save="ts", jump=True),
    "sde-milstein": dict(s="sde:StratonovichMilstein", c="const", save="t1"),
    "sde-slowrk": dict(s="sde:SlowRK", c="const", save="steps"),
    "sde-itomil": dict(s="sde:ItoMilstein", c="const", save="ts"),
    "uld-quicsort": dict(s="uld:QUICSORT", c="stepto", save="ts", alike=True),
    "uld-should": dict(s="uld:ShOULD", c="stepto", save="steps", alike=True),
    "uld-align": dict(s="uld:ALIGN", c="pid", save="ts", jump=True),
}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 6
    T = []
    for n, c in CFG.items():
        if n == "bosh3-pid-t1":
            continue
        for i in range(m):
            T.append((f"batch:{n}:{i}", dict(kind="batch", cfg=n, i=i, _cost=6 if "kv" in n or "ken" in n else 4)))
    for i in range(m):
        T += [(f"compile:{n}:{i}", dict(kind="compile", cfg=n, i=i, _cost=3)) for n in ("tsit5-pid-steps", "kvaerno3-event", "sde-spark-pid", "bosh3-jump-dense")]
        T += [(f"split:{n}:{i}", dict(kind="split", s=n, i=i, _cost=3)) for n in (("Tsit5", "Kvaerno5", "KenCarp4", "ReversibleHeun", "ImplicitEuler", "SPaRK") + (("Dopri8", "Half(Heun)", "Kvaerno3", "KenCarp5") if m > 1 else ()))]
        T += [(f"equiv:{n}:{i}", dict(kind="equiv", s=n, i=i, _cost=3)) for n in (("Tsit5", "Kvaerno3", "ReversibleHeun", "Dopri8", "KenCarp3", "Half(Heun)") + (("Bosh3", "Kvaerno4", "ImplicitEuler", "Sil3") if m > 1 else ()))]
        T.append((f"nested:{i}", dict(kind="nested", i=i, _cost=3)))
        T += [(f"grad:{w}:{i}", dict(kind="grad", i=i, w=w, _cost=5)) for w in range(4)]
    T += [(f"dtype:{w}", dict(kind="dtype", w=w, _cost=5)) for w in range(4)]
    T.append(("throw", dict(kind="throw")))
    return T


def run(name, p, mon):
    return globals()["run_" + p["kind"]](name, p, mon, _rng(mon, name))


# ------------------------------------------------------------------ the solve
D = 3
MAX = 96


def _sde_terms(key, inp):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    lo, hi = jnp.minimum(inp["t0"], inp["t1"]) - 0.1, jnp.maximum(inp["t0"], inp["t1"]) + 0.1
    bm = dfx.VirtualBrownianTree(lo, hi, 2.0 ** -9, (D,), key, levy_area=dfx.SpaceTimeTimeLevyArea)

    def drift(t, y, a):
        return a["A"] @ y + a["b"] * jnp.sin(a["w"] * t)

    def diff(t, y, a):
        import lineax as lx
        return lx.DiagonalLinearOperator(0.3 * a["c"] * (1 + 0.5 * jnp.tanh(y)))

    return dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, bm))


def _uld_terms(key, inp):
    import diffrax as dfx
    import jax.numpy as jnp

    bm = dfx.VirtualBrownianTree(inp["t0"] - 0.1, jnp.maximum(inp["t1"], inp["t0"]) + 0.1, 2.0 ** -9, (D,), key, levy_area=dfx.SpaceTimeTimeLevyArea)
    g, u = inp["args"]["gamma"], inp["args"]["u"]

    def grad_f(x, a):
        return x - 0.3 * a["A"] @ x + 0.2 * a["b"] * jnp.tanh(x)

    return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g, u, grad_f), dfx.UnderdampedLangevinDiffusionTerm(g, u, bm))


def _make(cfg):
    """the solve as a function of arrays only"""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    from dv.rec import norm_terms, ode_solvers

    def solve(inp, adjoint=None):
        s = cfg["s"]
        if s.startswith("sde:"):
            cls = getattr(dfx, s[4:])
            solver = cls()
            terms = _sde_terms(inp["key"], inp)
        elif s.startswith("uld:"):
            solver = getattr(dfx, s[4:])(0.1)
            terms = _uld_terms(inp["key"], inp)
        else:
            solver, kind, _, _ = ode_solvers(fixed_tols=cfg["c"] in ("const", "stepto"))[s]
            terms = norm_terms(kind)
        c = cfg["c"]
        dt0 = inp["dt0"]
        if c == "const":
            ctrl = dfx.ConstantStepSize()
        elif c == "stepto":
            ctrl = dfx.StepTo(ts=inp["steps"])
            dt0 = None
        else:
            kw = dict(pcoeff=0.3, icoeff=0.4) if c == "pi" else {}
            ctrl = dfx.PIDController(rtol=inp["rtol"], atol=inp["rtol"] * 0.1, dtmin=inp["dtmin"], force_dtmin=False, **kw)
            if cfg.get("auto"):
                dt0 = None
        if cfg.get("jump"):
            ctrl = dfx.ClipStepSizeController(ctrl, step_ts=inp["sts"], jump_ts=inp["jts"], store_rejected_steps=20)
        save = cfg["save"]
        sa = dict(ts=dict(ts=inp["ts"]), steps=dict(t0=True, steps=True), every=dict(steps=3, t1=True), t1=dict(t1=True), dense=dict(t0=True, t1=True, dense=True))[save]
        saveat = dfx.SaveAt(**sa, solver_state=True, controller_state=True, made_jump=True)
        event = None
        e = cfg.get("event")
        first = lambda y: jnp.ravel(jax.tree_util.tree_leaves(y)[0])  # noqa: E731
        if e == "root":
            event = dfx.Event(lambda t, y, args, **kw: first(y)[0] - args["lev"], optx.Newton(1e-9, 1e-9))
        elif e == "bool":
            event = dfx.Event(lambda t, y, args, **kw: first(y)[1] > args["lev"])
        elif e == "many":
            event = dfx.Event({"a": lambda t, y, args, **kw: first(y)[0] - args["lev"], "b": lambda t, y, args, **kw: first(y)[1] < -args["lev"]},
                              optx.Newton(1e-9, 1e-9))
        kw = {} if adjoint is None else dict(adjoint=adjoint)
        sol = dfx.diffeqsolve(terms, solver, inp["t0"], inp["t1"], dt0, inp["y0"], args=inp["args"], saveat=saveat, stepsize_controller=ctrl,
                              event=event, max_steps=MAX, throw=False, **kw)
        out = dict(t0=sol.t0, t1=sol.t1, ts=sol.ts, ys=sol.ys, stats={k: v for k, v in sol.stats.items()},
                   result=jnp.stack([sol.result == getattr(dfx.RESULTS, n) for n in NAMES]), event_mask=sol.event_mask,
                   state=sol.solver_state, cstate=sol.controller_state, jump=sol.made_jump)
        if save == "dense":
            fr = jnp.linspace(0.0, 1.0, 9)
            q = sol.t0 + fr * (sol.t1 - sol.t0)
            q = jnp.where(fr == 1, sol.t1, q)
            out["dense"] = jax.vmap(sol.evaluate)(q)
            out["dense_d"] = jax.vmap(sol.derivative)(q[1:-1])
        import equinox as eqx
        return eqx.filter(out, eqx.is_array)

    return solve


KINDS = ["plain", "long", "short", "back", "zero", "nan", "dtmin", "maxsteps", "blowup"]


def _inputs(cfg, rng, kind):
    """arrays of one solve"""
    import jax.random as jr

    from dv.rec import ode_solvers, vf_args, y0_for

    s = cfg["s"]
    pk = "single" if s.startswith("sde:") else "pair" if s.startswith("uld:") else ode_solvers()[s][1]
    if s.startswith("uld:") and kind in ("back", "zero"):
        return None
    t0 = float(rng.uniform(-1, 1))
    L = {"long": 2.5, "short": 0.2, "zero": 0.0}.get(kind, float(rng.uniform(0.6, 1.4)))
    t1 = t0 - L if kind == "back" else t0 + L
    y0 = y0_for(pk, rng, D)
    args = vf_args(rng, D)
    args["lev"] = np.float64(rng.choice([0.1, 0.4, 0.8, 50.0]))
    rtol = 1e-4 if s[:4] not in ("sde:", "uld:") else 0.05
    if s.startswith("uld:"):
        # frictions on both sides of the threshold between the two ways of computing the coefficients
        args["gamma"], args["u"] = 10.0 ** rng.uniform(-1.0, 1.3, D), rng.uniform(0.4, 1.5, D)
    dtmin = 1e-7
    dt0 = L / float(rng.integers(9, 23)) if cfg["c"] == "const" else 0.05
    if kind == "zero":
        dt0 = 0.05
    if kind == "back":
        dt0 = -dt0
    if kind == "nan":
        args["b"] = args["b"] * np.nan
    if kind == "dtmin":
        dtmin, rtol = 0.02, 1e-11
        if cfg["c"] in ("const", "stepto"):
            args["A"] = args["A"] * 1e8
    if kind == "maxsteps":
        if cfg["c"] == "const":
            dt0 = (t1 - t0) / (MAX + 30.5)
        else:
            args["w"] = np.float64(400.0)
            args["b"] = args["b"] * 100
    if kind == "blowup":
        args["A"] = np.eye(D) * 60.0
        if cfg["c"] not in ("const", "stepto"):
            args["A"] = np.eye(D) * 400.0
    f = lambda fr: np.where(np.asarray(fr) == 1, t1, t0 + np.asarray(fr) * (t1 - t0))  # noqa: E731
    fr = np.sort(np.concatenate([[0.0, 1.0], rng.random(5)]))
    inp = dict(t0=np.float64(t0), t1=np.float64(t1), dt0=np.float64(dt0), y0=y0, args=args, rtol=np.float64(rtol), dtmin=np.float64(dtmin), ts=f(fr))
    if cfg["c"] == "stepto":
        # (a fixed list of increasing times: zero-length and backward elements keep their own list)
        inp["steps"] = f(np.sort(np.concatenate([[0.0, 1.0], rng.random(11)])))
        if cfg.get("alike") and rng.random() < 0.6:
            # steps of one size, then of another: unlike its neighbours, such an element keeps its step size
            n, k, w = 12, int(rng.integers(2, 11)), float(rng.uniform(0.3, 0.7))
            inp["steps"] = f(np.concatenate([w * np.arange(k) / k, w + (1 - w) * np.arange(n - k) / (n - k), [1.0]])) if rng.random() < 0.6 else f(np.linspace(0.0, 1.0, n + 1))
        if kind == "zero":
            return None
    if cfg.get("jump"):
        inp["sts"] = np.sort(f(rng.random(2)))
        inp["jts"] = np.sort(f(rng.random(2)))
    if s[:4] in ("sde:", "uld:"):
        inp["key"] = np.asarray(jr.PRNGKey(int(rng.integers(1 << 30))))
    return inp


def _compare(mon, got, want, what, rtol=1e-8, atol=1e-10, skip=()):
    import jax.tree_util as jtu

    gp, wp = jtu.tree_leaves_with_path(got), jtu.tree_leaves_with_path(want)
    mon.ok(len(gp) == len(wp), what + ": number of outputs")
    for (path, a), (_, b) in zip(gp, wp):
        k = jtu.keystr(path)
        if any(x in k for x in skip):
            continue
        a, b = np.asarray(a), np.asarray(b)
        if "cstate" in k and a.dtype.kind == "f" and a.ndim == 0:
            # inverse error estimates: relative rounding of a cancellation
            mon.close(np.minimum(a, 1e6), np.minimum(b, 1e6), f"{what}: {k}", rtol=0.3, atol=1e-3)
            continue
        if a.dtype.kind in "bui":
            mon.equal(a, b, f"{what}: {k}")
        else:
            fin = np.abs(b[np.isfinite(b)])
            s = float(fin.max()) if fin.size else 0.0
            mon.close(a, b, f"{what}: {k}", rtol=rtol, atol=atol * max(1.0, s))


def run_batch(name, p, mon, rng):
    import equinox as eqx
    import jax
    import jax.tree_util as jtu

    from dv.rec import stack, unbatch

    cfg = CFG[p["cfg"]]
    solve = _make(cfg)
    single = eqx.filter_jit(solve)
    pool = [(k, _inputs(cfg, rng, k)) for k in KINDS + ["plain", "plain"]]
    pool = [(k, x) for k, x in pool if x is not None]
    alone = []
    for k, x in pool:
        o = jtu.tree_map(np.asarray, single(x))
        alone.append(o)
        r = NAMES[int(np.argmax(o["result"]))] if o["result"].any() else "?"
        mon.event("neighbour_kinds")
        if r == "event_occurred":
            mon.event("events_fired")
        elif r != "successful":
            mon.event("failures")
    B = 6
    many = eqx.filter_jit(jax.vmap(solve))
    n = len(pool)
    for rep in range(4):
        # every element appears with different neighbours
        order = rng.permutation(n)[:B] if rep else np.arange(n - B, n)
        if rep == 2:
            order = rng.choice(np.flatnonzero([k in ("plain", "long", "short", "back") for k, _ in pool]), size=B)
        got = jtu.tree_map(np.asarray, many(stack([pool[j][1] for j in order])))
        for i, j in enumerate(order):
            k = pool[j][0]
            mon.case(("batch", p["cfg"], k, rep, tuple(pool[x][0] for x in order)), neighbours=[pool[x][0] for x in order])
            # a blowing-up or non-finite element need not agree to many digits, but must agree in kind
            loose = k in ("blowup", "dtmin", "maxsteps")
            _compare(mon, unbatch(got, i), alone[j], f"batched {k} element", rtol=1e-5 if loose else 1e-8, atol=1e-5 if loose else 1e-10)
            mon.event("batch_elements")
            mon.event("batched_steps", int(alone[j]["stats"]["num_steps"]))
    # only some inputs batched
    base = pool[n - 1][1]
    which = ["y0", "args"] if p["i"] % 2 == 0 else ["t1", "ts", "rtol"]
    if cfg["c"] == "stepto" and "t1" in which:
        which = ["y0"]
    axes = {k: (0 if k in which else None) for k in base}
    other = pool[n - 2][1]
    elems = []
    for w in range(3):
        x = dict(base)
        for k in which:
            if k in ("y0", "args", "rtol"):
                x[k] = base[k] if w == 0 else other[k] if w == 1 else pool[0][1][k]
            else:
                fr = [1.0, 0.5, 0.75][w]
                x["t1"] = base["t0"] + fr * (base["t1"] - base["t0"])
                x["ts"] = base["t0"] + fr * (base["ts"] - base["t0"])
                x["ts"][-1] = x["t1"]
        elems.append(x)
    batch = {k: (stack([x[k] for x in elems]) if axes[k] == 0 else base[k]) for k in base}
    got = jtu.tree_map(np.asarray, eqx.filter_jit(jax.vmap(solve, in_axes=(axes,)))(batch))
    for i, x in enumerate(elems):
        mon.case(("partly batched", p["cfg"], tuple(which), i))
        _compare(mon, unbatch(got, i), jtu.tree_map(np.asarray, single(x)), "partly batched element")
        mon.event("batch_elements")


def run_nested(name, p, mon, rng):
    import equinox as eqx
    import jax
    import jax.tree_util as jtu

    from dv.rec import stack

    for c in ("heun-event", "tsit5-pid-steps"):
        cfg = CFG[c]
        solve = _make(cfg)
        pool = [[_inputs(cfg, rng, k) for k in ks] for ks in (("plain", "back"), ("nan", "long"), ("plain", "short"))]
        got = eqx.filter_jit(jax.vmap(jax.vmap(solve)))(stack([stack(r) for r in pool]))
        single = eqx.filter_jit(solve)
        for i in range(3):
            for j in range(2):
                mon.case(("nested", c, i, j))
                _compare(mon, jtu.tree_map(lambda x: np.asarray(x)[i, j], got), single(pool[i][j]), "doubly batched element")
        mon.event("nested")


def run_grad(name, p, mon, rng):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from dv.rec import stack

    for adj, c in [((dfx.RecursiveCheckpointAdjoint(), "dopri5-pid-ts"), (dfx.DirectAdjoint(), "bosh3-pid-t1"), (dfx.RecursiveCheckpointAdjoint(checkpoints=2), "sde-milstein"),
                    (dfx.ForwardMode(), "dopri5-pid-ts"))[p["w"]]]:
        cfg = dict(CFG[c])
        solve = _make(cfg)
        pool = [_inputs(cfg, rng, k) for k in ("plain", "back", "long", "short")]
        fwd = isinstance(adj, dfx.ForwardMode)

        def loss(y0, inp):
            out = solve(dict(inp, y0=y0), adjoint=adj)
            return jnp.sum(jnp.cos(out["ys"]))

        g = (jax.jacfwd if fwd else jax.grad)(loss)
        one = eqx.filter_jit(g)
        many = eqx.filter_jit(jax.vmap(g))(stack([x["y0"] for x in pool]), stack(pool))
        tot = eqx.filter_jit((jax.jacfwd if fwd else jax.grad)(lambda ys, pool: jnp.sum(jax.vmap(loss)(ys, pool))))(jnp.asarray(stack([x["y0"] for x in pool])), stack(pool))
        for i, x in enumerate(pool):
            mon.case(("gradient", type(adj).__name__, c, i))
            w = np.asarray(one(jnp.asarray(x["y0"]), x))
            mon.ok(np.all(np.isfinite(w)) and np.any(w != 0), "gradient is informative")
            mon.close(np.asarray(many)[i], w, "gradient of a batched element", rtol=1e-7, atol=1e-9)
            mon.close(np.asarray(tot)[i], w, "gradient through a batched solve", rtol=1e-7, atol=1e-9)
        mon.event("gradients")


# ------------------------------------------------------------------ compilation
def run_compile(name, p, mon, rng):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    cfg = CFG[p["cfg"]]
    solve = _make(cfg)
    inp = _inputs(cfg, rng, "back" if p["i"] % 2 else "plain")
    ref = jtu.tree_map(np.asarray, eqx.filter_jit(solve)(jtu.tree_map(jnp.asarray, inp)))
    mon.case(("compile", p["cfg"]), nontrivial=bool(ref["stats"]["num_steps"]))
    py = dict(inp)
    for k in ("t0", "t1", "dt0", "rtol", "dtmin"):
        py[k] = float(py[k])
    py = {k: (v if isinstance(v, float) else jtu.tree_map(jnp.asarray, v)) for k, v in py.items()}
    _compare(mon, solve(py), ref, "Python numbers, not under jit")
    mon.event("compiled")
    _compare(mon, solve(jtu.tree_map(jnp.asarray, inp)), ref, "arrays, not under jit")
    mon.event("compiled")
    _compare(mon, eqx.filter_jit(lambda: solve(jtu.tree_map(jnp.asarray, inp)))(), ref, "everything constant under jit")
    mon.event("compiled")
    if p["cfg"].startswith("sde"):
        return
    sc = eqx.filter_jit(lambda x: jax.lax.map(solve, x))(jtu.tree_map(lambda a: jnp.stack([jnp.asarray(a)] * 2), inp))
    for i in range(2):
        _compare(mon, jtu.tree_map(lambda a: np.asarray(a)[i], sc), ref, "inside lax.map")
    mon.event("compiled")


# ------------------------------------------------------------------ PyTrees
def _solve_tree(s, to_tree, from_tree, args, y0, t1, ts, rtol, key=None):
    """Solve y' = f(y) with the state held as to_tree(y)"""
    import diffrax as dfx
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import ode_solvers, vf, vf_half, vf_rest

    lift = lambda f: (lambda t, y, a: to_tree(f(t, from_tree(y), a)))  # noqa: E731
    if s == "SPaRK":
        solver = dfx.SPaRK()
        co = jnp.asarray(np.random.default_rng(7).normal(size=4))

        def diff(t, y, a):
            return to_tree(0.2 * jnp.cos(from_tree(y)))

        bm = _SmoothPath(co, to_tree(y0))
        terms = dfx.MultiTerm(dfx.ODETerm(lift(vf)), _ScalarControl(diff, bm))
    else:
        solver, kind, _, _ = ode_solvers()[s]
        terms = dfx.ODETerm(lift(vf)) if kind == "single" else dfx.MultiTerm(dfx.ODETerm(lift(vf_rest)), dfx.ODETerm(lift(vf_half)))
    ctrl = dfx.PIDController(rtol=rtol, atol=rtol)
    sol = dfx.diffeqsolve(terms, solver, 0.0, t1, 0.05, to_tree(y0), args=args, saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(ts=ts), dfx.SubSaveAt(steps=True, t0=True)]),
                          stepsize_controller=ctrl, max_steps=400)
    import jax
    ys = [jax.vmap(from_tree)(y) for y in sol.ys]
    return dict(ts=sol.ts, ys=ys, stats={k: jnp.asarray(v) for k, v in sol.stats.items()})


def _SmoothPath(co, like):
    """scalar, smooth 'Brownian' path with the space-time areas that SPaRK asks for"""
    import diffrax as dfx
    import jax.numpy as jnp
    import jax.tree_util as jtu

    class P(dfx.AbstractBrownianPath):
        levy_area: object = dfx.SpaceTimeLevyArea
        t0: object = -1.0
        t1: object = 10.0

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            if t1 is None:
                t0, t1 = 0.0, t0
            f = lambda t: jnp.sin(3 * t) + co[0] * t  # noqa: E731
            W = jtu.tree_map(lambda _: f(t1) - f(t0), like)
            if not use_levy:
                return W
            h = t1 - t0
            H = jtu.tree_map(lambda _: 0.1 * jnp.sqrt(jnp.abs(h)) * jnp.sin(5 * t0 + t1 + co[1]), like)
            return dfx.SpaceTimeLevyArea(dt=h, W=W, H=H)

    return P()


def _ScalarControl(f, bm):
    import diffrax as dfx

    return dfx.ControlTerm(f, bm)


def run_split(name, p, mon, rng):
    import equinox as eqx
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import vf_args

    n = 6
    args = jtu.tree_map(jnp.asarray, vf_args(rng, n))
    y0 = jnp.asarray(rng.normal(size=n))
    t1 = float(rng.uniform(0.7, 1.3))
    ts = jnp.asarray(np.sort(rng.uniform(0, t1, size=5)))
    rtol = 1e-4 if p["s"] != "SPaRK" else 1e-3
    flat = (lambda y: y), (lambda y: y)
    trees = [
        ((lambda y: {"a": y[:2], "b": (y[2], y[3:].reshape(3, 1))}), (lambda t: jnp.concatenate([t["a"], t["b"][0][None], t["b"][1].ravel()]))),
        ((lambda y: (y.reshape(2, 3),)), (lambda t: t[0].reshape(-1))),
        ((lambda y: [y[i] for i in range(6)]), (lambda t: jnp.stack(t))),
        ((lambda y: {"x": (y[:5], None), "y": y[5:].reshape(1, 1)}), (lambda t: jnp.concatenate([t["x"][0], t["y"].ravel()]))),
        ((lambda y: (y, jnp.zeros((0,)))), (lambda t: t[0])),
    ]
    run1 = lambda tt: eqx.filter_jit(lambda a, y, t: _solve_tree(p["s"], tt[0], tt[1], a, y, t1, t, rtol))(args, y0, ts)  # noqa: E731
    ref = run1(flat)
    sel = rng.choice(len(trees), size=2, replace=False)
    for i in sel:
        mon.case(("split", p["s"], int(i)))
        _compare(mon, run1(trees[i]), ref, "state held as a PyTree", rtol=1e-7, atol=1e-8)
        mon.event("pytree_splits")


# ------------------------------------------------------------------ equivalent problems
def run_equiv(name, p, mon, rng):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import ode_solvers, vf, vf_args, vf_half, vf_rest

    s = p["s"]
    n = 4
    args = jtu.tree_map(jnp.asarray, vf_args(rng, n, 0.4))
    y0 = jnp.asarray(rng.normal(size=n) + 4.0 * np.sign(rng.normal(size=n)))
    t1 = float(rng.uniform(0.7, 1.3))
    ts = jnp.asarray(np.sort(rng.uniform(0, t1, size=5)))
    solver, kind, implicit, _ = ode_solvers()[s]
    auto = bool(rng.integers(2))

    def go(wrap, y0, args, norm=None, atol=0.0, extra=None, dense=False):
        f = lambda g: dfx.ODETerm(wrap(g))  # noqa: E731
        terms = f(vf) if kind == "single" else dfx.MultiTerm(f(vf_rest), f(vf_half))
        kw = {} if norm is None else dict(norm=norm)
        ctrl = dfx.PIDController(rtol=1e-4, atol=atol, **kw)
        return dfx.diffeqsolve(terms, solver, 0.0, t1, None if auto else 0.03, y0, args=args, saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(ts=ts), dfx.SubSaveAt(steps=True, t0=True)]),
                               stepsize_controller=ctrl, max_steps=600)

    def out(sol, back=lambda y: y):
        return dict(ts=sol.ts, ys=[back(y) for y in sol.ys], stats={k: jnp.asarray(v) for k, v in sol.stats.items()})

    ident = lambda g: g  # noqa: E731
    ref = out(eqx.filter_jit(go)(ident, y0, args))
    # unused arguments of every type
    junk = (args, "text", None, jax.random.PRNGKey(3), jnp.arange(4), (lambda x: x), 3, True, {"z": np.float32(2)})
    r = out(go(lambda g: (lambda t, y, a: g(t, y, a[0])), y0, junk))
    mon.case(("unused", s, auto))
    _compare(mon, r, ref, "unused arguments", rtol=1e-7, atol=1e-8)
    mon.event("unused_args")
    # permutation
    perm = rng.permutation(n)
    inv = np.argsort(perm)
    r = out(eqx.filter_jit(go)(lambda g: (lambda t, y, a: g(t, y[inv], a)[perm]), y0[perm], args), lambda y: jnp.where(jnp.isinf(y), y, y)[:, inv])
    mon.case(("permuted", s, auto))
    _compare(mon, r, ref, "permuted components", rtol=1e-6, atol=1e-8)
    mon.event("permuted")
    # scaling every component by its own power of two (relative tolerance only)
    sc = jnp.asarray(2.0 ** rng.integers(-6, 7, size=n))
    r = out(eqx.filter_jit(go)(lambda g: (lambda t, y, a: g(t, y / sc, a) * sc), y0 * sc, args), lambda y: y / sc)
    mon.case(("scaled", s, auto))
    _compare(mon, r, ref, "scaled components", rtol=1e-6, atol=1e-8)
    mon.event("scaled")
    # k independent copies
    k = int(rng.integers(2, 4))
    r = eqx.filter_jit(go)(lambda g: (lambda t, y, a: jax.vmap(lambda x: g(t, x, a))(y)), jnp.stack([y0] * k), args)
    for c in range(k):
        mon.case(("stacked", s, auto, k, c))
        _compare(mon, out(r, lambda y: y[:, c]), ref, "copies inside one state", rtol=1e-6, atol=1e-8)
    mon.event("stacked")


# ------------------------------------------------------------------ dtypes and structures
def run_dtype(name, p, mon, rng):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    f32, f64 = jnp.float32, jnp.float64

    def shape(t0, t1, dt0, y0, saveat, solver=dfx.Tsit5(), ctrl=None, **kw):
        ctrl = dfx.PIDController(rtol=1e-3, atol=1e-3) if ctrl is None else ctrl
        f = lambda y0: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jtu.tree_map(lambda x: -x, y)), solver, t0, t1, dt0, y0, saveat=saveat, stepsize_controller=ctrl, **kw)  # noqa: E731
        return eqx.filter_eval_shape(f, y0)

    def want(sol_ys, y0, tdt, lead, what):
        mon.ok(jtu.tree_structure(sol_ys) == jtu.tree_structure(y0), what + ": structure", got=str(jtu.tree_structure(sol_ys)), want=str(jtu.tree_structure(y0)))
        for a, b in zip(jtu.tree_leaves(sol_ys), jtu.tree_leaves(y0)):
            w = jnp.promote_types(jnp.asarray(b).dtype, tdt)
            mon.ok(a.dtype == w, what + ": dtype", got=str(a.dtype), want=str(w))
            mon.ok(a.shape == lead + jnp.shape(b), what + ": shape", got=list(a.shape), want=list(lead + jnp.shape(b)))
        mon.event("dtypes")

    trees = {
        "f32": lambda d: jnp.ones(3, d),
        "tree": lambda d: {"a": jnp.ones((2, 1), d), "b": (jnp.ones((), d), None)},
    }
    for td in [(f32, f64)[p["w"] % 2]] if p["w"] < 2 else []:
        T = lambda x: jnp.asarray(x, td)  # noqa: E731
        for yd in (f32, f64):
            for tn, tr in trees.items():
                y0 = tr(yd)
                for si, (sa, lead) in enumerate([(dfx.SaveAt(ts=jnp.linspace(0, 1, 4, dtype=td)), (4,)), (dfx.SaveAt(t0=True, t1=True), (2,)), (dfx.SaveAt(steps=True, t0=True), (51,))]):
                    for solver in ((dfx.Tsit5(), dfx.Kvaerno3()) if si == 1 else (dfx.Tsit5(),)):
                        mon.case(("dtype", str(td), str(yd), tn, si, type(solver).__name__))
                        sol = shape(T(0), T(1), T(0.1), y0, sa, solver=solver, max_steps=50)
                        want(sol.ys, y0, td, lead, "saved values")
                        mon.ok(sol.ts.dtype == td and sol.ts.shape == lead, "saved times: dtype and shape", got=str(sol.ts), want=str((td, lead)))
                        mon.ok(sol.t0.dtype == td and sol.t1.dtype == td, "t0 and t1: dtype")
    if p["w"] < 2:
        return
    # integers and Python numbers
    for t0, t1, dt0, y0, tdt, ydt in [(0, 1, 0.1, 1.0, f64, f64), (0, 1, None, 2, f64, f64), (0, 1, 0.1, jnp.arange(3), f64, f64), (jnp.asarray(0), jnp.asarray(1), None, jnp.ones(2, f32), f64, f64),
                                      (0.0, 1.0, 0.1, jnp.ones(2, f32), None, f32), (jnp.float32(0), 1, 0.1, jnp.ones(2, f32), f32, f32), (np.float32(0), np.float32(1), None, np.ones(2, np.float32), f32, f32)]:
        mon.case(("numbers", str(t0), str(dt0), str(y0)))
        sol = shape(t0, t1, dt0, y0, dfx.SaveAt(t1=True))
        a = sol.ys
        if tdt is not None:
            mon.ok(sol.ts.dtype == tdt, "time dtype from numbers", got=str(sol.ts.dtype), want=str(tdt))
            mon.ok(a.dtype == ydt, "state dtype from numbers", got=str(a.dtype), want=str(ydt))
        else:
            mon.ok(a.dtype == jnp.promote_types(f32, sol.ts.dtype), "state dtype from Python times", got=str(a.dtype), time=str(sol.ts.dtype))
        mon.ok(a.shape == (1,) + jnp.shape(y0), "state shape from numbers")
        mon.event("dtypes")
    # save functions and subs follow the function and the structure
    fn = lambda t, y, args: {"n": jnp.sum(y), "t": t, "i": jnp.asarray(3, jnp.int32), "b": y > 0}  # noqa: E731
    y0 = jnp.ones(3, f32)
    T = lambda x: jnp.asarray(x, f32)  # noqa: E731
    subs = {"p": dfx.SubSaveAt(ts=jnp.linspace(0, 1, 5, dtype=f32), fn=fn), "q": [dfx.SubSaveAt(t0=True), dfx.SubSaveAt(t1=True, fn=lambda t, y, a: None)]}
    sol = shape(T(0), T(1), T(0.1), y0, dfx.SaveAt(subs=subs))
    mon.case(("subs",))
    mon.ok(set(sol.ys) == {"p", "q"} and sol.ys["q"][1] is None and sol.ts["q"][1].shape == (1,), "structure of sub-saves")
    for k, (sh, d) in dict(n=((5,), f32), t=((5,), f32), i=((5,), jnp.int32), b=((5, 3), jnp.bool_)).items():
        mon.ok(sol.ys["p"][k].shape == sh and sol.ys["p"][k].dtype == d, "save function output", key=k, got=str(sol.ys["p"][k]))
    mon.event("dtypes")
    # batched structure
    sol = eqx.filter_eval_shape(jax.vmap(lambda y: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), T(0), T(1), T(0.1), y)), jnp.ones((7, 3), f32))
    mon.ok(sol.ys.shape == (7, 1, 3) and sol.stats["num_steps"].shape == (7,), "batched shapes")
    # real solves in strict promotion: same dtype throughout
    for d in [(f32, f64)[p["w"] - 2]]:
        for solver in (dfx.Tsit5(), dfx.Kvaerno3(), dfx.ReversibleHeun(), dfx.HalfSolver(dfx.Euler())):
            mon.case(("strict", str(d), type(solver).__name__))
            with jax.numpy_dtype_promotion("strict"):
                sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), solver, d(0), d(1), d(0.1), jnp.ones(2, d), stepsize_controller=dfx.PIDController(rtol=1e-3, atol=1e-5))
            mon.ok(sol.ys.dtype == d and sol.ts.dtype == d, "dtype under strict promotion", got=str(sol.ys.dtype))
            mon.close(np.asarray(sol.ys)[0], np.exp(-1.0) * np.ones(2), "solution under strict promotion", rtol=3e-2)
            mon.event("dtypes")


def run_throw(name, p, mon, rng):
    """a batch raises when any of its elements fails"""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    def solve(y, w):
        return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.sin(w * t) * w - y), dfx.Tsit5(), 0.0, 1.0, None, y, stepsize_controller=dfx.PIDController(rtol=1e-6, atol=1e-6), max_steps=40).ys

    f = eqx.filter_jit(jax.vmap(solve))
    y = jnp.asarray(rng.normal(size=(4, 2)))
    ok = jnp.asarray([1.0, 2.0, 3.0, 1.5])
    for k in (None, 0, 2, 3):
        mon.case(("throw", k))
        w = ok if k is None else ok.at[k].set(500.0)
        try:
            jax.block_until_ready(f(y, w))
            raised = False
        except Exception:  # noqa: BLE001
            raised = True
        mon.ok(raised == (k is not None), "a batch raises exactly when an element fails", failing=k, raised=raised)
