"""C03: dense output matches the step values and interpolates at its stated order."""
import numpy as np

PROPERTY = "C03"
RULE = ("one evaluation = one solve with dense output, probed at knots (both sides), inside every step, outside, with increments "
        "and derivatives; distinct = (solver, kind of probe, direction, steps); non-trivial = at least two steps")
ASSUMPTIONS = ["interpolations are polynomial (degree <= 8) inside a step, used to differentiate them numerically",
               "order of an interpolation: exact on all rooted-tree equations up to that order"]
MIN_EVENTS = {"probes": 5000, "tree_values": 5000, "knots": 500}

# exact for all trees up to this order (docs: 'k-th order' = local error O(h^k) at least)
INTERP = {"Euler": 1, "Heun": 2, "Midpoint": 1, "Ralston": 1, "Bosh3": 3, "Tsit5": 4, "Dopri5": 4, "Dopri8": 5, "ImplicitEuler": 1,
          "Kvaerno3": 3, "Kvaerno4": 3, "Kvaerno5": 3, "KenCarp3": 2, "KenCarp4": 3, "KenCarp5": 3, "Sil3": 2, "ReversibleHeun": 1,
          "LeapfrogMidpoint": 1, "Half(Heun)": 2, "Half(Tsit5)": 4, "Half(Euler)": 1}
# as documented ("Uses k-th order interpolation"): local error O(h^k)
DOC = {"Tsit5": 5, "Dopri5": 5, "Dopri8": 8}
IVS = [(0.0, 2.0), (1.5, -0.7), (-4.0, -2.0), (50.0, 48.5), (0.0, -0.3), (7.0, 7.9)]


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 4
    for r in range(rep):
        for i, s in enumerate(INTERP):
            out.append((f"order-{s}-{r}", dict(kind="order", solver=s, rep=r)))
        for i, s in enumerate(list(INTERP) + ["SemiImplicitEuler"]):
            out.append((f"probe-{s}-{r}", dict(kind="probe", solver=s, iv=(i + r) % len(IVS), tree=(i + r) % 3 == 1 and not s.startswith("Half"), fail=(i + r) % 4 == 2, rep=r)))
        for i, s in enumerate(["Tsit5", "Dopri5", "Dopri8", "Kvaerno5", "KenCarp4", "Heun", "Bosh3"]):
            out.append((f"pid-{s}-{r}", dict(kind="probe", solver=s, iv=(i + 2 + r) % len(IVS), tree=(i + r) % 3 == 0, fail=False, pid=True, rep=r)))
        out.append((f"trivial-{r}", dict(kind="trivial")))
        out.append((f"local-{r}", dict(kind="local")))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def run(name, p, mon):
    {"order": run_order, "probe": run_probe, "trivial": run_trivial, "local": run_local}[p["kind"]](name, p, mon)


def run_order(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec, trees

    rng = _rng(mon, name)
    sname = p["solver"]
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    doc = DOC.get(sname, INTERP[sname] + 1)
    P = max(INTERP[sname], doc - 1)
    colours = 2 if kind == "multi" else 1
    P = min(P, 5) if colours == 2 else P
    fs, order, gamma = trees.tree_system(P, colours, timed=p["rep"] % 2 == 1)
    terms = dfx.ODETerm(fs[0]) if colours == 1 else dfx.MultiTerm(*[dfx.ODETerm(f) for f in fs])
    B, M = 3, 4
    order_ok = rec_order(solver)
    ts = np.cumsum(rng.uniform(0.4, 1.0, size=(B, M)), axis=1)
    t0 = np.float64([0.0, -1.3, 0.7][p["rep"] % 3])
    grid = t0 + np.concatenate([np.zeros((B, 1)), ts], 1)
    probes = grid[:, :-1, None] + (grid[:, 1:, None] - grid[:, :-1, None]) * np.sort(rng.uniform(0.02, 0.98, size=(B, M, 6)), axis=-1)
    # only as many steps as keep y exact: for solvers whose step order is at least the interpolation order
    y0 = np.zeros(len(order))

    @eqx.filter_jit
    def f(grid, probes):
        def g(grid, probes):
            s = dfx.diffeqsolve(terms, solver, grid[0], grid[-1], None, jnp.asarray(y0), grid[0], stepsize_controller=dfx.StepTo(grid),
                                saveat=dfx.SaveAt(dense=True), max_steps=M, throw=False)
            return jax.vmap(s.evaluate)(probes.ravel()), dfx.is_okay(s.result)
        return jax.vmap(g)(grid, probes)

    v, ok = f(jnp.asarray(grid), jnp.asarray(probes))
    v = np.asarray(v).reshape(B, M, 6, -1)
    h = np.diff(grid, axis=1)
    for b in range(B):
        mon.case((sname, "order", b), dict(grid=grid[b], trees=len(order), order=P))
        mon.ok(bool(ok[b]), "tree solve succeeds")
        th = probes[b] - grid[b, 0]
        want = th[..., None] ** order / gamma
        # steps after the first are exact only up to the order of the step itself
        hi = np.minimum(order_ok, INTERP[sname])
        sel = order <= hi
        mon.event("tree_values", int(sel.sum()) * M * 6)
        T = grid[b, -1] - grid[b, 0]
        nrm = gamma / T ** order
        mon.close((v[b] * nrm)[..., sel], (want * nrm)[..., sel], "dense output is exact on tree equations up to its order", atol=1e-9)
        # inside the first step: relative to the size of that step
        nrm = gamma / h[b, 0] ** order
        sel = order <= INTERP[sname]
        mon.close((v[b][0] * nrm)[..., sel], (want[0] * nrm)[..., sel], "dense output inside the first step is exact up to its order", atol=1e-9)
        sel = (order > INTERP[sname]) & (order <= doc - 1)
        if sel.any():
            mon.close((v[b][0] * nrm)[..., sel], (want[0] * nrm)[..., sel], "dense output has the documented order of interpolation", atol=1e-9)


def rec_order(solver):
    import diffrax as dfx
    if isinstance(solver, dfx.LeapfrogMidpoint):
        return 1
    return int(solver.order(None))


def run_probe(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from dv import rec

    rng = _rng(mon, name)
    sname = p["solver"]
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    terms = rec.norm_terms(kind, 1)
    D, B, N = 3, 3, 24
    T0, T1 = IVS[p["iv"]]
    d = 1 if T1 > T0 else -1
    args = rec.stack([rec.vf_args(rng, D, s) for s in [1.0, 1.6, 0.6]])
    y0 = rec.stack([rec.y0_for(kind, rng, D) for _ in range(B)])
    if p["tree"] and kind == "single":
        def vft(t, y, a):
            v = rec.vf(t, jnp.concatenate([y["a"].ravel(), y["b"][0][None]]), a)
            return {"a": v[:2].reshape(2, 1), "b": (v[2],)}
        terms = dfx.ODETerm(vft)
        y0 = {"a": rng.normal(size=(B, 2, 1)), "b": (rng.normal(size=B),)}
    dts = jnp.asarray(np.array([0.11, 0.0625, 0.3]) * (T1 - T0))
    if p.get("pid"):
        ctrl = dfx.PIDController(rtol=1e-3, atol=1e-4)
    else:
        ctrl = dfx.ConstantStepSize()
    half = sname.startswith("Half")
    N = 6 if p["fail"] else 40
    U = rng.uniform(0, 1, size=8)

    @eqx.filter_jit
    def solve(y0, args, dts):
        def g(y0, args, dt):
            s = dfx.diffeqsolve(terms, solver, T0, T1, dt, y0, args, stepsize_controller=rec.record(ctrl, N), max_steps=N, throw=False,
                                saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True)], dense=True, controller_state=True))
            return s.ts, s.ys, s.interpolation, s.stats, s.controller_state
        return jax.vmap(g)(y0, args, dts)

    @eqx.filter_jit
    def probe(interp, tq, tq2, left):
        def one(i, a, b):
            ev = lambda t, lf: rec.flat(i.evaluate(t, left=lf))
            return (jax.vmap(lambda t: ev(t, True))(a), jax.vmap(lambda t: ev(t, False))(a),
                    jax.vmap(lambda t, u: rec.flat(i.evaluate(t, u)))(a, b),
                    jax.vmap(lambda t: rec.flat(i.derivative(t)))(a), jax.vmap(lambda t: rec.flat(i.derivative(t, left=False)))(a), i.t0, i.t1)
        return jax.vmap(one)(interp, tq, tq2)

    (ts,), (ys,), interp, stats, cs = solve(y0, args, dts)
    nacc = np.asarray(stats["num_accepted_steps"])
    ts = np.asarray(ts)
    yflat = np.stack([np.stack([np.asarray(rec.flat(jtu.tree_map(lambda x: x[b, k], ys))) for k in range(ts.shape[1])]) for b in range(B)])
    # queries: knots, interior Chebyshev points of every step, outside
    cheb = 0.5 - 0.5 * np.cos(np.pi * (np.arange(10) + 0.5) / 10)
    K = N
    tq = np.zeros((B, (K + 1) + K * 10 + 6))
    for b in range(B):
        n = nacc[b]
        kn = ts[b][: n + 1]
        knf = np.concatenate([kn, np.full(K - n, kn[-1])])
        inner = knf[:-1, None] + (knf[1:] - knf[:-1])[:, None] * cheb
        L = abs(kn[-1] - kn[0])
        outside = np.array([kn[0] - d * 1e-6, kn[0] - d * L, kn[-1] + d * 1e-6, kn[-1] + d * L, kn[0] - d * 100, np.nan])
        tq[b] = np.concatenate([knf, inner.ravel(), outside])
    perm = rng.permutation(tq.shape[1] - 6)
    tq2 = tq.copy()
    tq2[:, : len(perm)] = tq[:, perm]
    vl, vr, inc, dl, dr, it0, it1 = map(np.asarray, probe(interp, jnp.asarray(tq), jnp.asarray(tq2), True))
    for b in range(B):
        n = int(nacc[b])
        kn, kv = ts[b][: n + 1], yflat[b][: n + 1]
        mon.case((sname, "probe", d, n, bool(p.get("pid"))), dict(t0=T0, t1=T1, steps=n), nontrivial=n > 1)
        sc = np.abs(kv).max() + 1e-3
        mon.equal([it0[b], it1[b]], [kn[0], kn[-1]], "interpolation covers exactly the solved interval")
        tol = 1e-11 * sc
        mon.event("knots", n + 1)
        kend = kv[1:]
        if half:
            # known finding F13; the interpolation is that of the wrapped solver's full step
            mon.close(vl[b][: n + 1], kv, "HalfSolver: dense output equals the step values", atol=tol)
            kend = full_steps(solver.solver, kind, d, rec.unbatch(args, b), kn * d, kv, terms if p["tree"] else None)
        mon.close(vl[b][1: n + 1], kend, "dense output equals the step values at the steps (left)", atol=tol)
        mon.close(vl[b][0], kv[0], "dense output equals the initial value at the start", atol=tol)
        mon.close(vr[b][:n], kv[:-1], "dense output equals the step values at the steps (right)", atol=tol)
        mon.close(vr[b][n], kend[-1], "dense output equals the final value at the end", atol=tol)
        a = (N + 1)
        inl, inr = vl[b][a: a + N * 10].reshape(N, 10, -1)[:n], vr[b][a: a + N * 10].reshape(N, 10, -1)[:n]
        mon.close(inl, inr, "left/right make no difference inside a step", atol=0.0)
        mon.ok(np.isfinite(inl).all(), "dense output is finite inside the interval")
        mon.event("probes", n * 10)
        out = vl[b][-6:]
        mon.ok(np.isnan(out).all(), "evaluating outside the interval gives NaN", got=out[:, 0])
        q = slice(0, a + n * 10)
        pm = perm
        base = vl[b][: len(pm)]
        mon.close(inc[b][: len(pm)], base[pm] - base, "increments equal differences of values", atol=1e-12 * sc)
        # derivatives: differentiate the polynomial through the interior points
        ddl = dl[b][a: a + N * 10].reshape(N, 10, -1)[:n]
        ddr = dr[b][a: a + N * 10].reshape(N, 10, -1)[:n]
        lo, hi = -np.ones(0), None
        for k in range(n):
            h = kn[k + 1] - kn[k]
            V = np.polynomial.chebyshev.chebvander(2 * cheb - 1, 9)
            c = np.linalg.solve(V, inl[k])
            dc = np.polynomial.chebyshev.chebder(c, axis=0) * 2 / h
            w = np.polynomial.chebyshev.chebval(2 * cheb - 1, dc).T
            dt = 2e-11 * sc / abs(h)
            mon.close(ddl[k], w, "derivative is that of the interpolation", atol=dt * 50)
            mon.close(ddr[k], w, "derivative (right) is that of the interpolation", atol=dt * 50)
            # knots: one-sided derivatives
            e = np.polynomial.chebyshev.chebval(np.array([-1.0, 1.0]), dc).T
            mon.close(dr[b][k], e[0], "derivative from the right at a step", atol=dt * 200)
            mon.close(dl[b][k + 1], e[1], "derivative from the left at a step", atol=dt * 200)
            # continuity of the polynomial with the knots
            ev = np.polynomial.chebyshev.chebval(np.array([-1.0, 1.0]), c).T
            mon.close(ev[0], kv[k], "interior interpolation starts at the step's start value", atol=1e-10 * sc)
            mon.close(ev[1], kend[k], "interior interpolation ends at the step's end value", atol=1e-10 * sc)
    # explicit save times agree with the dense output
    sol_ts = np.stack([np.sort(rng.uniform(0, 1, size=7)) for _ in range(B)]) * (T1 - T0) + T0
    if not p["fail"]:
        @eqx.filter_jit
        def solve2(y0, args, dts, tt):
            def g(y0, args, dt, tt):
                s = dfx.diffeqsolve(terms, solver, T0, T1, dt, y0, args, stepsize_controller=ctrl, max_steps=N, throw=False, saveat=dfx.SaveAt(ts=tt))
                return jax.vmap(rec.flat)(s.ys), dfx.is_okay(s.result)
            return jax.vmap(g)(y0, args, dts, tt)
        y2, fine = map(np.asarray, solve2(y0, args, dts, jnp.asarray(sol_ts)))
        pad = np.zeros_like(tq)
        pad[:, :7] = sol_ts
        pad[:, 7:] = T0
        v2 = np.asarray(probe(interp, jnp.asarray(pad), jnp.asarray(pad), True)[0])[:, :7]
        mon.event("saved_vs_dense", 7 * int(fine.sum()))
        mon.close(y2[fine], v2[fine], "values saved at times equal the dense output", atol=1e-9 * (np.abs(yflat[np.isfinite(yflat)]).max() + 1))


def full_steps(inner, kind, d, args, kn, kv, _):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec
    terms = rec.norm_terms(kind, d)

    @eqx.filter_jit
    def f(a, b, y):
        def one(a, b, y):
            st = inner.init(terms, a, b, y, args)
            return inner.step(terms, a, b, y, args, st, False)[0]
        return jax.vmap(one)(a, b, y)
    return np.asarray(f(jnp.asarray(kn[:-1]), jnp.asarray(kn[1:]), jnp.asarray(kv[:-1])))


def run_trivial(name, p, mon):
    """t0 == t1, and dense output unaffected by how it is queried."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    for s in ["Euler", "Tsit5", "Dopri8", "Heun"]:
        for y0 in (jnp.array([1.0, 2.0]), {"a": jnp.array(3.0), "b": jnp.array([1.0, 4.0])}):
            mon.case(("trivial", s, str(type(y0))))
            sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jax.tree_util.tree_map(lambda x: -x, y)), getattr(dfx, s)(), 1.5, 1.5, 0.1, y0, saveat=dfx.SaveAt(dense=True), max_steps=4)
            v = sol.evaluate(1.5)
            for a, b in zip(jax.tree_util.tree_leaves(v), jax.tree_util.tree_leaves(y0)):
                mon.equal(a, b, "dense output of an empty interval is y0")
            for t in (1.4, 1.6):
                for a in jax.tree_util.tree_leaves(sol.evaluate(t)):
                    mon.ok(np.isnan(np.asarray(a)).all(), "outside an empty interval is NaN")
            mon.equal([sol.interpolation.t0, sol.interpolation.t1], [1.5, 1.5], "empty interval reported by the interpolation")


def run_local(name, p, mon):
    """Local interpolations called directly: documented formulas."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, name)
    for m in range(6):
        mon.case(("local", m))
        t0, h = float(rng.normal()), float(rng.uniform(0.1, 2))
        t1 = t0 + h
        y0, y1, k0, k1 = [{"a": rng.normal(size=3), "b": (rng.normal(size=()),)} for _ in range(4)]
        J = lambda t: jax.tree_util.tree_map(jnp.asarray, t)
        lin = dfx.LocalLinearInterpolation(t0=t0, t1=t1, y0=J(y0), y1=J(y1))
        her = dfx.ThirdOrderHermitePolynomialInterpolation(t0=t0, t1=t1, y0=J(y0), y1=J(y1), k0=J(k0), k1=J(k1))
        for th in (0.0, 1.0, 0.5, float(rng.uniform()), -0.3, 1.4):
            t = t0 + th * h
            for path in (lambda x: x["a"], lambda x: x["b"][0]):
                a, b, c, e = path(y0), path(y1), path(k0), path(k1)
                mon.close(path(lin.evaluate(t)), a + th * (b - a), "linear local interpolation", atol=1e-12)
                mon.close(path(lin.derivative(t)), (b - a) / h, "linear local derivative", atol=1e-9)
                H = (2 * th**3 - 3 * th**2 + 1) * a + (th**3 - 2 * th**2 + th) * c + (3 * th**2 - 2 * th**3) * b + (th**3 - th**2) * e
                dH = ((6 * th**2 - 6 * th) * a + (3 * th**2 - 4 * th + 1) * c + (6 * th - 6 * th**2) * b + (3 * th**2 - 2 * th) * e) / h
                mon.close(path(her.evaluate(t)), H, "cubic Hermite local interpolation", atol=1e-11)
                mon.close(path(her.derivative(t)), dH, "cubic Hermite local derivative", atol=1e-9)
                for ip in (lin, her):
                    mon.close(path(ip.evaluate(t0 + 0.1 * h, t)), np.asarray(path(ip.evaluate(t))) - np.asarray(path(ip.evaluate(t0 + 0.1 * h))), "local increments", atol=1e-11)
