"""C06: every ODE solver has its advertised order, as has its error estimate."""
import numpy as np

PROPERTY = "C06"
RULE = ("one evaluation = one real solve of a rooted-tree system (its components' exact solutions are the order conditions) or one family of solves of a nonlinear problem "
        "with shrinking steps; distinct = (solver, variant, grid); non-trivial = all")
ASSUMPTIONS = ["order conditions for all smooth fields are equivalent to exactness on all rooted-tree equations", "implicit equations solved to 1e-10 by a tight root finder",
               "size of the error estimate compared with that of the published coefficients (table measured once; Bosh3 and Dopri5 agree with SciPy's)"]
MIN_EVENTS = {"tree_values": 8000, "error_values": 5000, "convergence_families": 40}

# step order, order through which the error estimate vanishes
ORD = {"Euler": (1, None), "Heun": (2, 1), "Midpoint": (2, 1), "Ralston": (2, 1), "Bosh3": (3, 2), "Tsit5": (5, 4), "Dopri5": (5, 4), "Dopri8": (8, 7),
       "ImplicitEuler": (1, 1), "Kvaerno3": (3, 2), "Kvaerno4": (4, 3), "Kvaerno5": (5, 4), "KenCarp3": (3, 2), "KenCarp4": (4, 3), "KenCarp5": (5, 4), "Sil3": (2, 2),
       "ReversibleHeun": (2, 1), "Half(Heun)": (2, 2), "Half(Tsit5)": (5, 5), "Half(Euler)": (1, 1)}
ADVERTISED = dict({k: v[0] for k, v in ORD.items()}, LeapfrogMidpoint=2, SemiImplicitEuler=1)
ADVERTISED["Half(SIE)"] = 1
ADVERTISED["Half(Kvaerno3)"] = 3
# mean over trees of order q+1 of |estimate| * gamma / h^(q+1)
FINGER = {'Dopri8': 0.0040639837425, 'Kvaerno5': 0.0153405176201, 'KenCarp5': 0.0158260552788, 'Heun': 1.0, 'Midpoint': 1.0, 'Ralston': 1.0, 'Bosh3': 0.125, 'Tsit5': 0.0148477081261, 'Dopri5': 0.0120685871056, 'ImplicitEuler': 1.0, 'Kvaerno3': 0.4753213816129, 'Kvaerno4': 0.8032724386872, 'KenCarp3': 0.0519234886529, 'ReversibleHeun': 1.0, 'KenCarp4': 0.0154696854672, 'Sil3': 0.3333333333333, 'Half(Heun)': 0.5625, 'Half(Tsit5)': 0.0048434218567, 'Half(Euler)': 0.5}

# user-defined tableaus (the documented extension point) in all storage modes
USER = {"u-RK4": (4, 2), "u-SSPRK3": (3, 2), "u-FSAL2": (2, 1), "u-SDIRK2": (2, 1), "u-DIRK2": (2, 1), "u-TRBDF2": (2, 2), "u-SDIRK3": (3, 2)}
ORD.update(USER)
EXPENSIVE = ["Heun", "Bosh3", "Dopri5", "Dopri8", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp4", "Sil3", "u-RK4", "u-SSPRK3", "u-FSAL2", "u-SDIRK2", "u-DIRK2", "u-TRBDF2"]


def user_solvers():
    import diffrax as dfx
    import optimistix as optx
    from typing import ClassVar
    from dv import rec

    A = np.array
    T = dfx.ButcherTableau
    al = 0.4358665215084592
    g2 = 1 - 1 / np.sqrt(2)
    b1 = -1.5 * al**2 + 4 * al - 0.25
    b2 = 1.5 * al**2 - 5 * al + 1.25
    w = np.sqrt(2) / 4
    tabs = {
        "u-RK4": (T(a_lower=(A([0.5]), A([0, 0.5]), A([0.0, 0, 1])), b_sol=A([1 / 6, 1 / 3, 1 / 3, 1 / 6]), b_error=A([1 / 6, -2 / 3, 1 / 3, 1 / 6]), c=A([0.5, 0.5, 1.0])), dfx.AbstractERK, 4),
        "u-SSPRK3": (T(a_lower=(A([1.0]), A([0.25, 0.25])), b_sol=A([1 / 6, 1 / 6, 2 / 3]), b_error=A([1 / 6, 1 / 6, 2 / 3]) - A([0.5, 0.5, 0]), c=A([1.0, 0.5])), dfx.AbstractERK, 3),
        # trapezoid written so that the last stage is the solution's slope
        "u-FSAL2": (T(a_lower=(A([1.0]), A([0.5, 0.5])), b_sol=A([0.5, 0.5, 0.0]), b_error=A([-0.5, 0.0, 0.5]), c=A([1.0, 1.0])), dfx.AbstractERK, 2),
        "u-SDIRK2": (T(a_lower=(A([1 - g2]),), b_sol=A([1 - g2, g2]), b_error=A([-g2, g2]), c=A([1.0]), a_diagonal=A([g2, g2]), a_predictor=(A([1.0]),), c1=g2), dfx.AbstractSDIRK, 2),
        "u-DIRK2": (T(a_lower=(A([0.25]),), b_sol=A([0.5, 0.5]), b_error=A([0.3, -0.3]), c=A([0.75]), a_diagonal=A([0.25, 0.5]), a_predictor=(A([1.0]),), c1=0.25), dfx.AbstractDIRK, 2),
        "u-TRBDF2": (T(a_lower=(A([g2]), A([w, w])), b_sol=A([w, w, g2]), b_error=A([w, w, g2]) - A([(1 - w) / 3, (3 * w + 1) / 3, g2 / 3]), c=A([2 * g2, 1.0]), a_diagonal=A([0, g2, g2]),
                       a_predictor=(A([1.0]), A([0.5, 0.5]))), dfx.AbstractESDIRK, 2),
        "u-SDIRK3": (T(a_lower=(A([(1 - al) / 2]), A([b1, b2])), b_sol=A([b1, b2, al]), b_error=A([0.25, -0.5, 0.25]), c=A([(1 + al) / 2, 1.0]), a_diagonal=A([al, al, al]),
                       a_predictor=(A([1.0]), A([0.5, 0.5])), c1=al), dfx.AbstractSDIRK, 3),
    }
    out = {}
    for k, (tab, base, adv) in tabs.items():
        if base is dfx.AbstractERK:
            class Solver(base):
                tableau: ClassVar = tab
                interpolation_cls: ClassVar = dfx.ThirdOrderHermitePolynomialInterpolation.from_k
                p: ClassVar = adv

                def order(self, terms):
                    return self.p
            out[k] = Solver()
        else:
            class Solver(base):
                root_finder: optx.AbstractRootFinder = rec.tight_root()
                root_find_max_steps: int = 10
                tableau: ClassVar = tab
                interpolation_cls: ClassVar = dfx.ThirdOrderHermitePolynomialInterpolation.from_k
                p: ClassVar = adv

                def order(self, terms):
                    return self.p
            out[k] = Solver()
    return out


def expensive(cls):
    """The same term, which asks that its vector field never be evaluated on its own."""
    class Expensive(cls):
        def is_vf_expensive(self, t0, t1, y, args):
            return True
    return Expensive


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 4
    for r in range(rep):
        for s in ORD:
            cost = 4 if s in ("Dopri8", "KenCarp5", "Kvaerno5") else 1
            kinds = ["plain", "timed"]
            if s not in ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3"):
                kinds += ["control", "tree"]
            if s in EXPENSIVE:
                kinds += ["expensive"]
            for v in kinds:
                if s == "Dopri8" and v in ("control", "tree") and tier == "quick":
                    continue
                out.append((f"tree-{s}-{v}-{r}", dict(kind="tree", solver=s, variant=v, rep=r, _cost=cost)))
        for s in ADVERTISED:
            out.append((f"conv-{s}-{r}", dict(kind="conv", solver=s, rep=r, _cost=2)))
        for s in ("Bosh3", "Tsit5", "Dopri5", "Kvaerno3", "KenCarp3"):
            out.append((f"scan-{s}-{r}", dict(kind="scan", solver=s)))
        out.append((f"half-{r}", dict(kind="half")))
        out.append((f"scipy-{r}", dict(kind="scipy")))
        out.append((f"order-{r}", dict(kind="order")))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def run(name, p, mon):
    {"tree": run_tree, "conv": run_conv, "scan": run_scan, "half": run_half, "scipy": run_scipy, "order": run_orders}[p["kind"]](name, p, mon)


def run_tree(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec, trees

    rng = _rng(mon, name)
    sname, var = p["solver"], p["variant"]
    solver, kind = (user_solvers()[sname], "single") if sname in USER else rec.ode_solvers(fixed_tols=True)[sname][:2]
    P, q = ORD[sname]
    ODETerm = expensive(dfx.ODETerm) if var == "expensive" else dfx.ODETerm
    colours = 2 if kind == "multi" else 1
    top = max(P, (q or 0) + 1)
    if colours == 2:
        top = min(top, 5)
    fs, order, gamma = trees.tree_system(top, colours, timed=var in ("timed", "expensive"))
    n = len(order)
    d = -1 if (p["rep"] + len(sname) + len(var)) % 2 else 1
    B, M = 3, 3
    S0 = np.float64(rng.choice([0.0, -1.3, 0.7]))
    grid = S0 + np.concatenate([np.zeros((B, 1)), np.cumsum(rng.uniform(0.4, 1.0, size=(B, M)), axis=1)], 1)
    wrap = lambda f: (lambda t, y, a: d * f(d * t, y, a))
    if colours == 2:
        terms = dfx.MultiTerm(*[ODETerm(wrap(f)) for f in fs])
        y0 = jnp.zeros(n)
    elif var == "control":
        w = np.array([0.7, -0.2, 0.5])

        class Path(dfx.AbstractPath):
            t0 = -100.0
            t1 = 100.0

            def evaluate(self, t0, t1=None, left=True):
                return jnp.asarray(w) * (t0 if t1 is None else t1 - t0)
        v = np.array([0.3, 0.2, 1.0 - 0.0])
        v = v / (v @ w)
        terms = dfx.ControlTerm(lambda t, y, a: wrap(fs[0])(t, y, a)[:, None] * jnp.asarray(v), Path())
        y0 = jnp.zeros(n)
    elif var == "tree":
        cut = n // 3 + 1
        f0 = wrap(fs[0])

        def vt(t, y, a):
            z = f0(t, jnp.concatenate([y["b"], y["a"][0].ravel()]), a)
            return {"a": (z[cut:].reshape(-1, 1),), "b": z[:cut]}
        terms = dfx.ODETerm(vt)
        y0 = {"a": (jnp.zeros((n - cut, 1)),), "b": jnp.zeros(cut)}
    else:
        terms = ODETerm(wrap(fs[0]))
        y0 = jnp.zeros(n)

    @eqx.filter_jit
    def f(grid):
        def g(grid):
            s = dfx.diffeqsolve(terms, solver, d * grid[0], d * grid[-1], None, y0, grid[0], stepsize_controller=rec.record(dfx.StepTo(d * grid), M),
                                saveat=dfx.SaveAt(t1=True, controller_state=True), max_steps=M, throw=False)
            return s.controller_state[1], s.ys, dfx.is_okay(s.result)
        return jax.vmap(g)(grid)
    lo, ys, ok = f(jnp.asarray(grid))
    perm = np.arange(n)
    if var == "tree":  # leaves are in key order
        perm = np.concatenate([np.arange(cut, n), np.arange(cut)])
    inv = np.argsort(perm)
    for b in range(B):
        log = rec.unlog((None, rec.unbatch(lo, b)))
        mon.case((sname, var, d, b), dict(grid=grid[b], trees=n, order=P))
        mon.ok(bool(ok[b]) and len(log["t0"]) == M, "tree solve succeeds")
        Y, E = log["y1"][:, inv], log["err"][:, inv]
        t = grid[b, 1:] - grid[b, 0]
        h = np.diff(grid[b])
        sel = order <= P
        for k in range(M if sname != "ReversibleHeun" else 1):
            want = t[k] ** order / gamma
            nrm = gamma / t[k] ** order
            mon.close((Y[k] * nrm)[sel], (want * nrm)[sel], "step is exact on tree equations up to its order", atol=1e-9, step=k)
            mon.event("tree_values", int(sel.sum()))
        if q is None:
            mon.equal(E, np.zeros_like(E), "no error estimate")
            continue
        nrm = gamma / h[0] ** order
        e = np.abs(E[0]) * nrm
        lowsel = order <= q
        mon.close(e[lowsel], np.zeros(lowsel.sum()), "error estimate vanishes to its order", atol=1e-9)
        mon.event("error_values", int(lowsel.sum()))
        hi = order == q + 1
        if hi.any():
            mon.ok(e[hi].max() > 1e-6, "error estimate does not vanish beyond its order")
            mon.event("error_values", int(hi.sum()))
            if (sname in FINGER) and var in ("plain", "timed", "control", "tree"):
                mon.close(e[hi].mean(), FINGER[sname], "error estimate has the size of the published one", rtol=1e-6)
            if mon.force:
                print("FINGER", repr(sname), float(e[hi].mean()))
        mon.ok(np.isfinite(E).all(), "error estimates are finite")


def graded():
    import diffrax as dfx
    import jax.numpy as jnp
    from typing import Any

    class Graded(dfx.AbstractStepSizeController):
        n: Any
        a: Any
        s0: Any
        s1: Any

        def wrap(self, direction):
            return self

        def _phi(self, k):
            u = k / self.n
            u = jnp.minimum(u + self.a * jnp.sin(2 * jnp.pi * u) / (2 * jnp.pi), 1.0)
            return jnp.where(k >= self.n, self.s1, self.s0 + (self.s1 - self.s0) * u)

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return self._phi(1), jnp.array(1)

        def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, k):
            return jnp.array(True), t1, self._phi(k + 1), False, k + 1, dfx.RESULTS.successful
    return Graded


def run_conv(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import scipy.integrate as si
    from dv import rec

    rng = _rng(mon, name)
    sname = p["solver"]
    order = ADVERTISED[sname]
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    G = graded()
    ns = {1: [32, 64, 128, 256], 2: [32, 64, 128, 256], 3: [16, 32, 64, 128], 4: [12, 24, 48, 96], 5: [6, 12, 24, 48], 8: [3, 6, 12, 24]}[order]
    D = 3
    B = 3
    d = [1, -1, 1][(p["rep"] + len(sname)) % 3]
    S0, S1 = [(0.0, 1.6), (-0.4, 0.9)][p["rep"] % 2]
    args = [rec.vf_args(rng, D, 0.9) for _ in range(B)]
    y0 = [rec.y0_for(kind, rng, D) for _ in range(B)]
    terms = rec.norm_terms(kind, d)  # in user time t: d * f(d * t)
    grades = [0.0] if sname == "LeapfrogMidpoint" else [0.0, 0.5]

    @eqx.filter_jit
    def f(ns, a, y0, args):
        def one(n):
            s = dfx.diffeqsolve(terms, solver, d * S0, d * S1, None, y0, args, stepsize_controller=G(n, a, jnp.asarray(S0), jnp.asarray(S1)), max_steps=ns_max, throw=False, adjoint=dfx.ForwardMode())
            return rec.flat(jax.tree_util.tree_map(lambda x: x[-1], s.ys)), dfx.is_okay(s.result), s.stats["num_steps"]
        return jax.vmap(one)(ns)
    ns_max = max(ns)
    for b in range(B):
        a = args[b]
        if kind == "pair":
            fn = lambda t, y: np.concatenate([a["A"] @ y[D:] + a["b"] * np.sin(a["w"] * t), -np.sin(y[:D]) * a["c"] + a["b"] * np.cos(a["w"] * t)])
            z0 = np.concatenate(y0[b])
        else:
            fn = lambda t, y: a["A"] @ y + a["c"] * np.tanh(y[::-1]) + a["b"] * np.sin(a["w"] * t)
            z0 = y0[b]
        ref = si.solve_ivp(fn, (S0, S1), z0, method="DOP853", rtol=1e-13, atol=1e-14).y[:, -1]
        sc = 1 + np.abs(ref).max()
        for gr in grades:
            mon.case((sname, "conv", d, b, gr), dict(order=order, ns=ns))
            y, ok, cnt = map(np.asarray, f(jnp.asarray(ns), jnp.asarray(gr), jax.tree_util.tree_map(jnp.asarray, y0[b]), jax.tree_util.tree_map(jnp.asarray, a)))
            mon.ok(ok.all(), "solves succeed")
            mon.equal(cnt, ns, "number of steps")
            e = np.abs(y - ref).max(axis=1) / sc
            mon.event("convergence_families")
            floor = 3e-12 if sname not in ("Kvaerno5", "KenCarp5", "Kvaerno4", "KenCarp4", "Kvaerno3", "KenCarp3", "Sil3", "ImplicitEuler", "Half(Kvaerno3)") else 2e-10
            mon.le(e[-1], {1: 0.05, 2: 2e-3, 3: 1e-4, 4: 1e-5, 5: 1e-6, 8: 1e-8}[order], "converges to the exact solution", errors=e)
            slopes = [np.log2(e[i] / e[i + 1]) for i in range(len(ns) - 1) if e[i + 1] > floor]
            if slopes:
                # overall slope, and the best pair
                i1 = max(i + 1 for i in range(len(ns) - 1) if e[i + 1] > floor)
                overall = np.log2(e[0] / e[i1]) / i1
                mon.ok(max(slopes + [overall]) > order - (0.6 if order < 8 else 1.0), "converges at its advertised order", slopes=slopes, errors=e)


def run_scan(name, p, mon):
    """The internal loop kinds give the same step."""
    import diffrax as dfx
    import jax.numpy as jnp
    from dv import rec
    rng = _rng(mon, name)
    sname = p["solver"]
    base, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    a = rec.vf_args(rng, 3)
    y0 = jnp.asarray(rng.normal(size=3))
    outs = {}
    for k in (None, "lax", "checkpointed", "bounded"):
        import equinox as eqx
        s = eqx.tree_at(lambda s: s.scan_kind, base, k, is_leaf=lambda x: x is None)
        sol = dfx.diffeqsolve(rec.norm_terms(kind), s, 0.0, 1.0, 0.21, y0, a, stepsize_controller=rec.record(dfx.ConstantStepSize(), 8), max_steps=8, saveat=dfx.SaveAt(t1=True, controller_state=True))
        mon.case((sname, "scan", str(k)))
        outs[k] = (np.asarray(sol.ys), rec.unlog(sol.controller_state)["err"])
        mon.close(outs[k][0], outs[None][0], "internal loop kind does not change the result", atol=1e-9)
        mon.close(outs[k][1], outs[None][1], "internal loop kind does not change the error estimate", atol=1e-9)


def run_half(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec
    rng = _rng(mon, name)
    S = rec.ode_solvers(fixed_tols=True)
    for iname in ("Euler", "Midpoint", "Tsit5", "Kvaerno3", "ImplicitEuler", "SemiImplicitEuler", "Sil3"):
        inner, kind, _, _ = S[iname]
        half = dfx.HalfSolver(inner)
        terms = rec.norm_terms(kind)
        B = 5
        args = rec.stack([rec.vf_args(rng, 3) for _ in range(B)])
        y0 = rec.stack([rec.y0_for(kind, rng, 3) for _ in range(B)])
        t0 = jnp.asarray(rng.normal(size=B))
        h = jnp.asarray(rng.uniform(0.05, 0.5, size=B))

        @eqx.filter_jit
        def f(t0, t1, y0, args):
            def one(t0, t1, y0, args):
                y, e, _, _, r = half.step(terms, t0, t1, y0, args, half.init(terms, t0, t1, y0, args), False)
                tm = t0 + 0.5 * (t1 - t0)
                st = inner.init(terms, t0, tm, y0, args)
                a, _, _, st, _ = inner.step(terms, t0, tm, y0, args, st, False)
                b, _, _, _, _ = inner.step(terms, tm, t1, a, args, st, False)
                c, _, _, _, _ = inner.step(terms, t0, t1, y0, args, inner.init(terms, t0, t1, y0, args), False)
                return rec.flat(y), rec.flat(e), rec.flat(b), rec.flat(c), r == dfx.RESULTS.successful
            return jax.vmap(one)(t0, t1, y0, args)
        y, e, b, c, ok = map(np.asarray, f(t0, t0 + h, y0, args))
        mon.case((iname, "half"))
        mon.ok(ok.all(), "half solver step succeeds")
        mon.close(y, b, "half solver returns the two half steps", atol=1e-9)
        mon.close(np.abs(e), np.abs(b - c), "half solver's error is the difference to the full step", atol=1e-9)
        mon.event("error_values", e.size)
        o, eo = inner.order(terms), half.error_order(terms)
        mon.ok(half.order(terms) == o and eo == o + 1, "half solver's orders", order=half.order(terms), error_order=eo)


def run_scipy(name, p, mon):
    """Bosh3 and Dopri5 against SciPy's RK23/RK45 tableaus, one step and error."""
    import diffrax as dfx
    import jax.numpy as jnp
    from scipy.integrate import RK23, RK45
    from dv import rec
    rng = _rng(mon, name)
    for cls, ref in ((dfx.Bosh3, RK23), (dfx.Dopri5, RK45)):
        for k in range(4):
            a = rec.vf_args(rng, 3)
            y0 = rng.normal(size=3)
            t0, h = float(rng.normal()), float(rng.uniform(0.05, 0.6))
            mon.case((cls.__name__, "scipy", k))
            fn = lambda t, y: a["A"] @ y + a["c"] * np.tanh(y[::-1]) + a["b"] * np.sin(a["w"] * t)
            K = [fn(t0, y0)]
            for c, row in zip(ref.C[1:], ref.A[1:]):
                K.append(fn(t0 + c * h, y0 + h * sum(r * kk for r, kk in zip(row, K))))
            y1 = y0 + h * np.asarray(ref.B) @ np.array(K)
            K.append(fn(t0 + h, y1))
            err = h * np.asarray(ref.E) @ np.array(K)
            term = dfx.ODETerm(rec.vf)
            s = cls()
            st = s.init(term, t0, t0 + h, jnp.asarray(y0), a)
            y, e, _, _, _ = s.step(term, t0, t0 + h, jnp.asarray(y0), a, st, False)
            mon.close(y, y1, "step equals SciPy's", atol=1e-12)
            # (Dopri5 uses Shampine's embedded formula: 2/3 of that of SciPy)
            mon.close(np.abs(e), np.abs(err) * (1 if cls is dfx.Bosh3 else 2 / 3), "error estimate equals SciPy's", atol=1e-12)
            mon.event("error_values", 3)


def run_orders(name, p, mon):
    """What the solvers say about themselves."""
    import diffrax as dfx
    from dv import rec
    S = rec.ode_solvers(fixed_tols=True)
    for s, (solver, kind, _, _) in S.items():
        mon.case((s, "advertised"))
        terms = rec.norm_terms(kind)
        want = dict(ADVERTISED).get(s)
        got = solver.order(terms)
        mon.ok(got == want, "advertised order", solver=s, got=got, want=want)
        if s in rec.ADAPTIVE:
            eo = solver.error_order(terms)
            w = {"ImplicitEuler": 2}.get(s, want + 1 if s.startswith("Half") else want)
            mon.ok(eo == w, "advertised order of the error estimate", solver=s, got=eo, want=w)
