"""C10: gradients are those of the computed solution, for every adjoint method.

For each configuration the loss of a real solve is differentiated through each adjoint and compared (a) with
fourth-order finite differences of the numerical output itself (adaptive solves: of the same accepted steps,
replayed with StepTo), (b) between adjoints, and (c) - for the continuous and implicit adjoints - with
sensitivities obtained without diffrax.
"""
import zlib

import numpy as np

PROPERTY = "C10"
RULE = ("one evaluation = one directional derivative of one solve through one adjoint, judged against finite differences "
        "of the numerical output or exact sensitivities; distinct = (configuration, adjoint, direction); "
        "non-trivial = the derivative is not zero")
ASSUMPTIONS = ["numerical outputs are smooth at the sampled parameters (step counts do not change under the perturbation)",
               "adaptive step sizes are constants of the differentiation, as the library documents in its code"]
MIN_EVENTS = {"reverse_derivatives": 120, "forward_derivatives": 30, "primal_comparisons": 30, "backsolve_derivatives": 12,
              "implicit_derivatives": 6, "event_derivatives": 12}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


ADJ = ["rc", "rc1", "rc3", "rcmax", "direct", "fwd"]


def tasks(tier, seed):
    T = []
    base = [  # solver, ctrl, adjoints, direction
        ("Tsit5", "const", ["rc", "direct"], 1), ("Bosh3", "const", ["rc1", "fwd"], 1), ("Tsit5", "pid", ["rc", "rc3", "fwd"], -1),
        ("Heun", "const", ["rc3", "rcmax"], -1), ("Dopri5", "pid", ["rc1", "direct"], 1),
        ("Dopri8", "pid", ["rc"], 1), ("Kvaerno3", "const", ["rc", "fwd"], 1), ("Kvaerno5", "pid", ["rc3"], -1),
        ("KenCarp4", "pid", ["rc", "direct"], 1), ("Sil3", "const", ["rc"], -1), ("ImplicitEuler", "const", ["direct", "rc1"], 1),
        ("SemiImplicitEuler", "const", ["rc", "fwd"], -1), ("ReversibleHeun", "const", ["rc1", "direct"], 1),
        ("LeapfrogMidpoint", "const", ["rc3", "fwd"], -1), ("Half(Heun)", "pid", ["direct", "fwd"], 1),
        ("Half(Kvaerno3)", "const", ["rc"], 1), ("Bosh3", "clip", ["rc", "rc1"], 1), ("Midpoint", "stepto", ["rc", "fwd"], -1),
        ("Euler", "const", ["rcmax", "fwd"], 1), ("Ralston", "pid", ["rc3"], 1),
        ("sde-Heun", "const", ["rc", "direct"], 1), ("sde-SPaRK", "const", ["rc", "fwd"], -1), ("sde-ShARK", "const", ["rc1"], 1),
        ("sde-ItoMilstein", "const", ["rc"], 1),
    ]
    if tier != "quick":
        rng = np.random.default_rng(seed)
        from_names = ["Heun", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3",
                      "ReversibleHeun", "Half(Tsit5)", "Half(Euler)", "Half(SIE)", "Half(Kvaerno3)"]
        for s in from_names:
            for d in (1, -1):
                base.append((s, str(rng.choice(["pid", "clip", "const", "stepto"])), [str(x) for x in rng.permutation(ADJ)[:4]], d))
        for s in ("sde-Euler", "sde-EulerHeun", "sde-StratonovichMilstein", "sde-SRA1", "sde-SEA", "sde-SlowRK", "sde-GeneralShARK", "sde-ReversibleHeun"):
            base.append((s, "const", ["rc", "direct", "fwd"], 1))
    for i, (s, c, a, d) in enumerate(base):
        T.append((f"grad-{i}-{s}-{c}", dict(kind="grad", solver=s, ctrl=c, adj=a, d=d, _cost=3 if s.startswith(("K", "Sil", "Imp", "Half(K")) else 1)))
    bs = [("Tsit5", 1, "ts"), ("Dopri5", -1, "t1"), ("Kvaerno5", 1, "mixed"), ("Tsit5", 1, "tree"), ("Dopri5", -1, "const"), ("Heun", 1, "ctrl"), ("Tsit5", -1, "t0t1"), ("Tsit5", 1, "dup")]
    if tier != "quick":
        bs += [("Tsit5", 1, "t0only"), ("Dopri8", -1, "one"), ("Bosh3", 1, "dup"), ("Dopri5", 1, "mixed"), ("Tsit5", 1, "const"), ("Heun", -1, "ctrl"), ("Kvaerno5", 1, "ts"),
               ("Dopri8", 1, "ts"), ("Dopri8", -1, "ts"), ("KenCarp5", 1, "t1"), ("Kvaerno4", -1, "ts"), ("Tsit5", -1, "tree"), ("Bosh3", 1, "ts")]
    for i, (s, d, k) in enumerate(bs):
        T.append((f"back-{i}-{s}-{k}", dict(kind="back", solver=s, d=d, save=k, _cost=2)))
    for i in range(2 if tier == "quick" else 4):
        T.append((f"implicit-{i}", dict(kind="implicit", i=i)))
        T.append((f"event-{i}", dict(kind="event", i=i, _cost=2)))
    return T


def run(name, p, mon):
    return dict(grad=run_grad, back=run_back, implicit=run_implicit, event=run_event)[p["kind"]](name, p, mon)


def _adjoint(k, N):
    import diffrax as dfx

    return dict(rc=lambda: dfx.RecursiveCheckpointAdjoint(), rc1=lambda: dfx.RecursiveCheckpointAdjoint(checkpoints=1), rc3=lambda: dfx.RecursiveCheckpointAdjoint(checkpoints=3),
                rcmax=lambda: dfx.RecursiveCheckpointAdjoint(checkpoints=N), direct=lambda: dfx.DirectAdjoint(), fwd=lambda: dfx.ForwardMode())[k]()


def _dirs(rng, theta, groups):
    """one random direction per group, and one over everything"""
    import jax.tree_util as jtu

    out, names = [], []
    full = jtu.tree_map(lambda x: rng.normal(size=np.shape(x)), theta)
    for g in groups:
        out.append({k: (full[k] if k in g else jtu.tree_map(lambda x: np.zeros(np.shape(x)), full[k])) for k in theta})
        names.append("+".join(g))
    out.append(full)
    names.append("all")
    return jtu.tree_map(lambda *x: np.stack(x), *out), names


def _fd(F, theta, V, eps):
    """fourth-order central differences of F along each of the stacked directions, in one batched call"""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    @eqx.filter_jit
    def go(theta, V):
        def one(v, s):
            return F(jtu.tree_map(lambda x, y: x + s * y, theta, v))
        S = eps * jnp.array([-2.0, -1.0, 1.0, 2.0])
        f = jax.vmap(lambda v: jax.vmap(lambda s: one(v, s))(S))(V)
        return (f[:, 0] - 8 * f[:, 1] + 8 * f[:, 2] - f[:, 3]) / (12 * eps), f
    d, f = go(theta, V)
    return np.asarray(d), np.asarray(f)


def run_grad(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    import jax.tree_util as jtu
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    D = 3
    d = p["d"]
    T0, T1 = (0.2, 1.5) if d == 1 else (1.1, -0.3)
    sde = p["solver"].startswith("sde-")
    if sde:
        sn = p["solver"][4:]
        cls = getattr(dfx, sn)
        solver, kind = cls(), "single"
    else:
        solver, kind, _, _ = rec.ode_solvers(fixed_tols=optx.Newton(rtol=1e-12, atol=1e-13, norm=optx.max_norm))[p["solver"]]
    N = 40
    ctrl = p["ctrl"]
    low = p["solver"] in ("Heun", "Half(Heun)", "Ralston", "Midpoint", "ImplicitEuler", "Half(Euler)", "Half(SIE)", "Sil3", "ReversibleHeun")
    pid = dfx.PIDController(rtol=3e-2 if low else 1e-3, atol=1e-2 if low else 1e-4)
    args = rec.vf_args(rng, D, 0.8)
    y0 = rec.y0_for(kind, rng, D)
    W = rng.normal(size=(D, D)) * 0.5
    theta = dict(y0=y0, args=args, W=W)
    times = ctrl == "const" and not sde
    dt = (T1 - T0) * (0.083 if ctrl not in ("pid", "clip") else 0.7)
    tsv = T0 + (T1 - T0) * np.array([0.13, 0.4, 0.77])
    tq = T0 + (T1 - T0) * np.array([0.21, 0.66])
    if times:
        theta.update(t=dict(t0=T0, t1=T1, dt0=dt, ts=tsv))
    wts = [rng.normal(size=40) for _ in range(6)]
    key = jr.PRNGKey(int(rng.integers(1 << 30)))

    class Net(eqx.Module):  # a parametrised vector field (gradients through `terms`)
        W: jax.Array
        f: object = eqx.field(static=True)

        def __call__(self, t, y, a):
            return self.f(t, y, a) + 0.3 * jnp.sin(self.W @ y)

    def mkterms(th):
        W = th["W"]
        if sde:
            lev = {"SPaRK": dfx.SpaceTimeLevyArea, "GeneralShARK": dfx.SpaceTimeLevyArea, "SlowRK": dfx.SpaceTimeLevyArea, "ShARK": dfx.SpaceTimeLevyArea, "SRA1": dfx.SpaceTimeLevyArea,
                   "SEA": dfx.SpaceTimeLevyArea}.get(sn, dfx.BrownianIncrement)
            additive = sn in ("ShARK", "SRA1", "SEA")
            scalar = sn in ("SlowRK",)
            bm = dfx.VirtualBrownianTree(min(T0, T1), max(T0, T1), 1e-3, () if scalar else (D,), key, levy_area=lev)
            if additive:
                import lineax as lx
                g = lambda t, y, a: lx.DiagonalLinearOperator(a["b"])
            elif scalar:
                g = lambda t, y, a: 0.4 * jnp.cos(y) * a["b"]
            else:
                import lineax as lx
                g = lambda t, y, a: lx.DiagonalLinearOperator(0.4 * jnp.cos(y) * a["b"])
            return dfx.MultiTerm(dfx.ODETerm(Net(W, rec.vf)), dfx.ControlTerm(g, bm))
        if kind == "single":
            return dfx.ODETerm(Net(W, rec.vf))
        if kind == "multi":
            return dfx.MultiTerm(dfx.ODETerm(Net(W, rec.vf_rest)), dfx.ODETerm(rec.vf_half))
        return (dfx.ODETerm(Net(W, rec.pair_f)), dfx.ODETerm(Net(W * 0.5, rec.pair_g)))

    dense_ok = True

    def F(th, adj, controller, dt0):
        t = th.get("t", dict(t0=T0, t1=T1, dt0=dt0, ts=tsv))
        th_ts = jnp.asarray(t["ts"])
        fn = lambda t, y, a: jtu.tree_map(lambda x: jnp.sin(x) * a["w"] * t, y)
        sa = dfx.SaveAt(subs=[dfx.SubSaveAt(ts=th_ts), dfx.SubSaveAt(t0=True, t1=True, fn=fn), dfx.SubSaveAt(steps=2)], dense=dense_ok)
        s = dfx.diffeqsolve(mkterms(th), solver, t["t0"], t["t1"], None if dt0 is None else t["dt0"], th["y0"], th["args"], saveat=sa, stepsize_controller=controller,
                            adjoint=adj, max_steps=N, throw=False)
        out = 0.0
        for w, leafs in zip(wts, s.ys):
            v = jnp.concatenate([jnp.ravel(x) for x in jtu.tree_leaves(leafs)])
            v = jnp.where(jnp.isfinite(v), v, 0.0)
            out = out + jnp.sum(jnp.resize(jnp.asarray(w), v.shape) * jnp.sin(v))
        if dense_ok:
            yq = jax.vmap(lambda q: rec.flat(s.evaluate(q)))(tq)
            out = out + jnp.sum(jnp.asarray(wts[3][:yq.size]).reshape(yq.shape) * jnp.sin(yq))
            if not sde:
                yq = jax.vmap(lambda q: rec.flat(s.derivative(q)))(tq)
                out = out + 0.3 * jnp.sum(jnp.asarray(wts[4][:yq.size]).reshape(yq.shape) * jnp.sin(yq))
        if times:
            out = out + jnp.sum(jnp.sin(jnp.where(jnp.isfinite(s.ts[2]), s.ts[2], 0.0)))  # the saved times are outputs as well
        return out, s

    # forward runs, and for adaptive stepping the accepted steps
    theta = jtu.tree_map(jnp.asarray, theta)
    if ctrl in ("pid", "clip"):
        inner = pid if ctrl == "pid" else dfx.ClipStepSizeController(pid, step_ts=T0 + (T1 - T0) * np.array([0.31, 0.32]), jump_ts=None)
        used, dt0 = inner, dt
        r = eqx.filter_jit(lambda th: dfx.diffeqsolve(mkterms(th), solver, T0, T1, dt, th["y0"], th["args"], saveat=dfx.SaveAt(controller_state=True, t1=True),
                                                      stepsize_controller=rec.record(inner, N), max_steps=N))(theta)
        lg = rec.unlog(jtu.tree_map(np.asarray, r.controller_state))
        k = lg["keep"]
        mon.event("rejected_steps", int((~k).sum()))
        grid = np.concatenate([[T0], d * lg["t1"][k]])
        grid[-1] = T1
        replay, dtr = dfx.StepTo(grid), None
    elif ctrl == "stepto":
        grid = T0 + (T1 - T0) * np.sort(np.concatenate([[0, 1], rng.uniform(0.03, 0.97, 7)]))
        grid[0], grid[-1] = T0, T1
        used = replay = dfx.StepTo(grid)
        dt0 = dtr = None
    else:
        used = replay = dfx.ConstantStepSize()
        dt0 = dtr = dt
    groups = [["y0"], ["args"], ["W"]] + ([["t"]] if times else [])
    V, names = _dirs(rng, theta, groups)
    if times:
        V["t"] = {k: v * {"t0": 0.3, "t1": 0.3, "dt0": 0.03, "ts": 0.1}[k] for k, v in V["t"].items()}
    V = jtu.tree_map(jnp.asarray, V)
    rcd = dfx.RecursiveCheckpointAdjoint()
    ref, fvals = _fd(lambda th: F(th, rcd, replay, dtr)[0], theta, V, 2e-4)
    scale = np.abs(ref) + 1e-2 * np.max(np.abs(ref)) + 1e-6
    prim = None
    for a in p["adj"]:
        adj = _adjoint(a, N)
        g = lambda th: F(th, adj, used, dt0)
        if a == "fwd":
            @eqx.filter_jit
            def go(th, V):
                val, s = g(th)
                return jax.vmap(lambda v: jax.jvp(lambda x: g(x)[0], (th,), (v,))[1])(V), (val, s.stats, s.ts, s.ys)
        else:
            @eqx.filter_jit
            def go(th, V):
                (val, s), gr = jax.value_and_grad(g, has_aux=True)(th)
                return jax.vmap(lambda v: sum(jnp.sum(x * y) for x, y in zip(jtu.tree_leaves(gr), jtu.tree_leaves(v))))(V), (val, s.stats, s.ts, s.ys)
        got, pr = go(theta, V)
        got = np.asarray(got)
        for j, nm in enumerate(names):
            mon.case((name, a, nm), sample=dict(task=name, adjoint=a, direction=nm, got=got[j], want=ref[j]), nontrivial=abs(ref[j]) > 1e-8, adjoint=a, wrt=nm, solver=p["solver"], ctrl=ctrl)
            mon.event("forward_derivatives" if a == "fwd" else "reverse_derivatives")
            mon.close(got[j] / scale[j], ref[j] / scale[j], "derivative through the solve differs from finite differences of the numerical output", atol=2e-6)
        if a == "direct":  # also forward mode through the direct adjoint
            fw = np.asarray(eqx.filter_jit(lambda th, v: jax.jvp(lambda x: g(x)[0], (th,), (v,))[1])(theta, jtu.tree_map(lambda x: x[-1], V)))
            mon.event("forward_derivatives")
            mon.close(fw / scale[-1], ref[-1] / scale[-1], "forward-mode derivative through the direct adjoint", atol=2e-6)
        pr = jtu.tree_map(np.asarray, pr)
        if prim is None:
            prim = pr
        mon.event("primal_comparisons")
        for x, y in zip(jtu.tree_leaves(prim), jtu.tree_leaves(pr)):
            mon.close(y, x, "the forward result depends on the adjoint", rtol=1e-10, atol=1e-11)
    if prim is not None and ctrl in ("const", "stepto"):
        mon.event("primal_comparisons")
        mon.close(prim[0], np.asarray(F(theta, rcd, replay, dtr)[0]), "loss value", rtol=1e-9, atol=1e-9)


def _rk4(f, t0, t1, y, args, ts, n=400):
    """independent reference solution at ts (sorted in the direction of integration), differentiable"""
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    add = lambda y, k, h: jtu.tree_map(lambda a, b: a + h * b, y, k)
    outs, t = [], t0
    for tn in list(ts):
        h = (tn - t) / n

        def body(c, i, t=t, h=h):
            s = t + i * h
            k1 = f(s, c, args); k2 = f(s + h / 2, add(c, k1, h / 2), args); k3 = f(s + h / 2, add(c, k2, h / 2), args); k4 = f(s + h, add(c, k3, h), args)
            return jtu.tree_map(lambda c, a, b, d, e: c + h / 6 * (a + 2 * b + 2 * d + e), c, k1, k2, k3, k4), None
        y, _ = jax.lax.scan(body, y, jnp.arange(n))
        t = tn
        outs.append(y)
    return jtu.tree_map(lambda *x: jnp.stack(x), *outs)


def run_back(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    D, d = 3, p["d"]
    T0, T1 = (0.2, 1.4) if d == 1 else (1.0, -0.2)
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=optx.Newton(rtol=1e-10, atol=1e-11, norm=optx.max_norm))[p["solver"]]
    args = jtu.tree_map(jnp.asarray, rec.vf_args(rng, D, 0.8))
    W = jnp.asarray(rng.normal(size=(D, D)) * 0.5)
    y0 = jnp.asarray(rng.normal(size=D))
    tree = p["save"] == "tree"
    if tree:
        y0 = {"a": y0[:2], "b": (y0[2],)}
    flat = lambda y: jnp.concatenate([jnp.ravel(x) for x in jtu.tree_leaves(y)])

    class Net(eqx.Module):
        W: jax.Array

        def __call__(self, t, y, a):
            z = flat(y)
            v = rec.vf(t, z, a) + 0.3 * jnp.sin(self.W @ z)
            return {"a": v[:2], "b": (v[2],)} if tree else v

    class Half(eqx.Module):
        W: jax.Array
        impl: bool = eqx.field(static=True)

        def __call__(self, t, z, a):
            return rec.vf_half(t, z, a) if self.impl else rec.vf_rest(t, z, a) + 0.3 * jnp.sin(self.W @ z)

    def terms(W):
        return dfx.MultiTerm(dfx.ODETerm(Half(W, False)), dfx.ODETerm(Half(W, True))) if kind == "multi" else dfx.ODETerm(Net(W))

    fr = np.array([0.0, 0.2, 0.55, 0.9, 1.0])
    kind_ = p["save"]
    inner = {"ts": fr, "tree": fr, "const": fr, "ctrl": fr[1:], "mixed": fr[1:-1], "dup": np.array([0.0, 0.3, 0.3, 0.3, 1.0]), "one": fr[2:3]}.get(kind_)
    st0, st1 = kind_ in ("mixed", "t0t1", "t0only"), kind_ in ("mixed", "t0t1", "t1", "dup")
    sa = dfx.SaveAt(t0=st0, t1=st1, ts=None if inner is None else jnp.asarray(T0 + (T1 - T0) * inner))
    times = T0 + (T1 - T0) * np.concatenate([[0.0] * st0, [] if inner is None else inner, [1.0] * st1])
    w = jnp.asarray(rng.normal(size=(len(times), D)))
    loss = lambda ys: jnp.sum(w * jnp.sin(jax.vmap(flat)(ys)))
    tol = 1e-6 if p["solver"] in ("Bosh3", "KenCarp5", "Kvaerno4", "Kvaerno5") else 1e-8
    allow = 3e3 * tol
    ctrl = dfx.PIDController(rtol=tol, atol=tol)
    dt0, max_steps = 0.05 * d, 4096
    if kind_ == "const":
        # every stretch of the backward solve starts with a jump of the adjoint state; with fixed
        # steps a stage carried across it is an error of the size of the step
        ctrl, dt0, allow = dfx.ConstantStepSize(), 0.02 * d, 1e-6
    if kind_ == "ctrl":
        ctrl, dt0, allow = dfx.ConstantStepSize(), 0.004 * d, 1e-3
    W2 = jnp.asarray(rng.normal(size=(D, 2, D)) * 0.4)

    class Path(dfx.AbstractPath):
        q: jax.Array
        t0 = -10.0
        t1 = 10.0

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            f = lambda t: jnp.stack([jnp.sin(self.q[0] * t), jnp.cos(2 * t) + self.q[1] * t])
            return f(t0) if t1 is None else f(t1) - f(t0)

    class Sig(eqx.Module):
        W: jax.Array
        W2: jax.Array

        def __call__(self, t, y, a):
            return jnp.tanh(self.W2 @ y) + a["c"][:, None] * 0.3

    if kind_ == "ctrl":
        base_terms = terms
        pars = (W, W2, jnp.asarray([1.3, 0.4]))
        terms = lambda P: dfx.MultiTerm(base_terms(P[0]), dfx.ControlTerm(Sig(P[0], P[1]), Path(P[2])))
    else:
        pars = W

    def F(th, adj):
        s = dfx.diffeqsolve(terms(th[2]), solver, T0, T1, dt0, th[0], th[1], saveat=sa, stepsize_controller=ctrl, adjoint=adj, max_steps=max_steps)
        return loss(s.ys), s

    def R(th):
        f = Net(th[2])
        if kind_ == "ctrl":
            drift, g, x = Net(th[2][0]), Sig(th[2][0], th[2][1]), Path(th[2][2])
            f = lambda t, y, a: drift(t, y, a) + g(t, y, a) @ jax.jacfwd(lambda t: x.evaluate(t))(t)
        u, where = np.unique(times * d, return_inverse=True)
        u = u * d
        ys0 = jtu.tree_map(lambda x: x[None], th[0])
        if len(u) and u[0] == T0:
            rest = list(u[1:])
        else:
            rest, where = list(u), where + 1
        ys = _rk4(f, T0, rest[-1], th[0], th[1], rest) if rest else None
        ys = ys0 if ys is None else jtu.tree_map(lambda a, b: jnp.concatenate([a, b]), ys0, ys)
        return loss(jtu.tree_map(lambda x: x[where], ys))

    th = (y0, args, pars)
    want = eqx.filter_jit(jax.grad(R))(th)
    kw = dict(solver=dfx.Dopri8(), stepsize_controller=dfx.PIDController(rtol=tol, atol=tol)) if p["solver"] == "Dopri5" and kind_ == "t1" else {}
    if kind_ == "t0t1":
        kw = dict(stepsize_controller=dfx.PIDController(rtol=tol, atol=tol, norm=dfx.adjoint_rms_seminorm))
    (v, s), got = eqx.filter_jit(jax.value_and_grad(lambda th: F(th, dfx.BacksolveAdjoint(**kw)), has_aux=True))(th)
    v2, s2 = eqx.filter_jit(lambda th: F(th, dfx.RecursiveCheckpointAdjoint()))(th)
    mon.event("primal_comparisons")
    for a, b in zip(jtu.tree_leaves((v, s.ts, s.ys, s.stats)), jtu.tree_leaves((v2, s2.ts, s2.ys, s2.stats))):
        mon.close(np.asarray(a), np.asarray(b), "the forward result depends on the adjoint", rtol=1e-10, atol=1e-11)
    if kind_ == "ctrl":
        got, want = (got[0], got[1], got[2][:2], got[2][2]), (want[0], want[1], want[2][:2], want[2][2])
    for nm, g, h in zip(("y0", "args", "terms", "control"), got, want):
        g, h = np.asarray(flat(g)), np.asarray(flat(h))
        mon.case((name, nm), sample=dict(task=name, wrt=nm, got=g, want=h), wrt=nm, solver=p["solver"])
        mon.event("backsolve_derivatives", len(g))
        if nm == "control" and not g.any():
            mon.fail("BacksolveAdjoint: the derivative with respect to the parameters of a ControlTerm's control is exactly zero", got=g, want=h)
            continue
        mon.close(g, h, "continuous adjoint differs from the exact sensitivity" + (" (parameters of the control)" if nm == "control" else ""), rtol=allow, atol=allow)


def run_implicit(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    rng = _rng(mon, name)
    D = 3
    tree = p["i"] % 2 == 1
    A = rng.normal(size=(D, D)) * 0.2 - 1.5 * np.eye(D)
    b = rng.normal(size=D)
    W = rng.normal(size=(D, D)) * 0.4

    class Net(eqx.Module):
        W: jax.Array

        def __call__(self, t, y, a):
            z = jnp.concatenate([y["a"], y["b"]]) if tree else y
            v = a[0] @ z + a[1] + 0.4 * jnp.sin(self.W @ z)
            return {"a": v[:1], "b": v[1:]} if tree else v

    y0 = jnp.asarray(rng.normal(size=D))
    y0t = {"a": y0[:1], "b": y0[1:]} if tree else y0
    w = jnp.asarray(rng.normal(size=D))

    def F(th, adj):
        W, a, y0 = th
        s = dfx.diffeqsolve(dfx.ODETerm(Net(W)), [dfx.Tsit5(), dfx.Kvaerno5()][p["i"] % 2], 0.0, 200.0, 0.1, y0, a, stepsize_controller=dfx.PIDController(rtol=1e-9, atol=1e-10),
                            adjoint=adj, event=dfx.Event(dfx.steady_state_event(rtol=1e-8, atol=1e-9)), max_steps=4096)
        z = jnp.concatenate([jnp.ravel(x) for x in jtu.tree_leaves(s.ys)])
        return jnp.sum(w * jnp.sin(z)), (z, s.stats)

    th = (jnp.asarray(W), (jnp.asarray(A), jnp.asarray(b)), y0t)
    (v, (z, st)), g = eqx.filter_jit(jax.value_and_grad(lambda t: F(t, dfx.ImplicitAdjoint()), has_aux=True))(th)
    v2, (z2, st2) = eqx.filter_jit(lambda t: F(t, dfx.DirectAdjoint()))(th)
    mon.event("primal_comparisons")
    mon.close(np.asarray(z), np.asarray(z2), "the forward result depends on the adjoint", rtol=1e-10, atol=1e-12)
    mon.ok(int(st["num_steps"]) == int(st2["num_steps"]), "the number of steps depends on the adjoint")
    z = np.asarray(z)
    fz = A @ z + b + 0.4 * np.sin(W @ z)
    mon.le(np.max(np.abs(fz)), 1e-6, "not at a steady state")
    J = A + 0.4 * np.cos(W @ z)[:, None] * W
    lam = np.linalg.solve(J.T, np.asarray(w) * np.cos(z))  # dL/dtheta = -lam . df/dtheta
    want = dict(W=-np.outer(lam * 0.4 * np.cos(W @ z), z), A=-np.outer(lam, z), b=-lam)
    for nm, got in (("W", g[0]), ("A", g[1][0]), ("b", g[1][1])):
        mon.case((name, nm), sample=dict(task=name, wrt=nm), wrt=nm)
        mon.event("implicit_derivatives")
        mon.close(np.asarray(got), want[nm], "implicit adjoint differs from the implicit function theorem", rtol=1e-5, atol=1e-6)
    for x in jtu.tree_leaves(g[2]):
        mon.ok(bool(np.all(np.asarray(x) == 0)), "implicit adjoint depends on the initial state")


def run_event(name, p, mon):
    """gradients of event times and states, also in batches in which some elements have no event"""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    D, d = 3, [1, -1][p["i"] % 2]
    T0, T1 = (0.0, 2.0) if d == 1 else (0.5, -1.5)
    solver = [dfx.Tsit5(), dfx.Dopri5(), dfx.Heun(), dfx.Kvaerno4(root_finder=optx.Newton(1e-12, 1e-13))][p["i"] % 4]
    adjs = [["rc", "fwd"], ["direct", "rc1"], ["rc3", "direct"], ["rc"]][p["i"] % 4]
    B = 4
    args = jtu.tree_map(jnp.asarray, rec.vf_args(rng, D, 0.8))
    y0 = jnp.asarray(rng.normal(size=(B, D)))
    plain = eqx.filter_jit(jax.vmap(lambda y: dfx.diffeqsolve(dfx.ODETerm(rec.vf), solver, T0, T1, 0.07 * d, y, args, saveat=dfx.SaveAt(ts=jnp.array([T0 + (T1 - T0) * 0.5, T1]))).ys))(y0)
    # threshold: the value at a random time for some, unreachable for the last
    thr = np.array(plain[:, 0, 0])
    thr[-1] = 1e3
    w = jnp.asarray(rng.normal(size=D + 1))

    def F(th, adj):
        def one(y, thr):
            s = dfx.diffeqsolve(dfx.ODETerm(rec.vf), solver, T0, T1, 0.07 * d, y, th["args"], adjoint=adj, max_steps=40,
                                event=dfx.Event(lambda t, y, a, **k: y[0] - thr, optx.Newton(1e-12, 1e-12)))
            return w[0] * jnp.sin(s.ts[0]) + jnp.sum(w[1:] * jnp.sin(s.ys[0])), s.ts[0], s.result == dfx.RESULTS.event_occurred
        return jax.vmap(one)(th["y0"], th["thr"])

    theta = dict(y0=y0, args=args, thr=jnp.asarray(thr))
    V, names = _dirs(rng, theta, [["y0"], ["args"], ["thr"]])
    V = jtu.tree_map(jnp.asarray, V)
    val, tf, occ = eqx.filter_jit(lambda th: F(th, dfx.ForwardMode()))(theta)
    occ = np.asarray(occ)
    mon.event("elements_with_event", int(occ.sum()))
    ref, _ = _fd(lambda th: F(th, dfx.ForwardMode())[0], theta, V, 1e-5)  # (directions, B)
    for a in adjs:
        adj = _adjoint(a, 40)
        if a == "fwd":
            got = eqx.filter_jit(lambda th, V: jax.vmap(lambda v: jax.jvp(lambda x: F(x, adj)[0], (th,), (v,))[1])(V))(theta, V)
        else:
            J = eqx.filter_jit(lambda th: jax.jacrev(lambda x: F(x, adj)[0])(th))(theta)
            got = jax.vmap(lambda v: sum(jnp.sum((j * x[None]).reshape(B, -1), 1) for j, x in zip(jtu.tree_leaves(J), jtu.tree_leaves(v))))(V)
        got = np.asarray(got)
        for j, nm in enumerate(names):
            for i in range(B):
                mon.case((name, a, nm, i), adjoint=a, wrt=nm, element=i, event=bool(occ[i]), nontrivial=abs(ref[j, i]) > 1e-8)
                mon.event("event_derivatives" if occ[i] else "no_event_derivatives")
                # a grazing event makes the derivative large: relative accuracy
                sc = abs(ref[j, i]) + 1.0
                mon.close(got[j, i] / sc, ref[j, i] / sc, "derivative of the event time and state", atol=2e-5)
