"""C07: SDE solvers take the documented step and converge to the right solution."""
import numpy as np

PROPERTY = "C07"
RULE = ("one evaluation = one real SDE solve over a tabulated Brownian path; distinct = (solver, noise structure, direction, seed, grid); "
        "non-trivial = all; events: steps re-derived from the documented formula, path errors measured")
ASSUMPTIONS = ["driving increments are those of a tabulated Brownian path whose W, H, K are exact on its grid",
               "backwards in time the driving path is the same path traversed backwards (W -> -W, H -> H, K -> -K)",
               "strong orders estimated from a fixed number of sampled paths with a margin"]
MIN_EVENTS = {"formula_steps": 2000, "path_errors": 20000, "families": 25}

R3 = np.sqrt(3.0)
x1, x2 = (3 - R3) / 6, R3 / 3


def lower(rows, s):
    A = np.zeros((s, s))
    for i, r in enumerate(rows):
        A[i + 1, :i + 1] = r
    return A


# documented tableaus: a, b, be, c, then (aW, bW, beW), (aH, bH, beH), (aK, bK, beK)
ADD = {
    "SEA": dict(a=[], b=[1.0], be=None, c=[0.0], W=([.5], 1.0), H=([1.0], 0.0)),
    "ShARK": dict(a=[[5 / 6]], b=[.4, .6], be=[-.6, .6], c=[0, 5 / 6], W=([0, 5 / 6], 1.0), H=([1, 1], 0.0)),
    "SRA1": dict(a=[[.75]], b=[1 / 3, 2 / 3], be=[-2 / 3, 2 / 3], c=[0, .75], W=([0, .75], 1.0), H=([0, 1.5], 0.0)),
    "UserAddK": dict(a=[[.6], [.2, .5]], b=[.3, .3, .4], be=[.1, -.3, .2], c=[0, .6, .7], W=([.1, .5, .8], 1.0), H=([1, .3, -.2], .25),
                     K=([.5, -1., 2.], -.75)),
    "UserAddW": dict(a=[[.5]], b=[0., 1.], be=None, c=[0, .5], W=([0, .5], 1.0)),
}
GEN = {
    "SPaRK": dict(a=[[.5], [0, 1]], b=[x1, x2, x1], be=[x1 - .5, x2, x1 - .5], c=[0, .5, 1], W=([[.5], [0, 1]], [x1, x2, x1], [x1 - .5, x2, x1 - .5]),
                  H=([[R3], [0, 0]], [1, 0, -1], [1, 0, -1])),
    "GeneralShARK": dict(a=[[0], [0, 5 / 6]], b=[0, .4, .6], be=None, c=[0, 0, 5 / 6], W=([[0], [0, 5 / 6]], [0, .4, .6], None),
                         H=([[1], [1, 0]], [0, 1.2, -1.2], None)),
    "SlowRK": dict(a=[[.5], [.5, 0], [.5, 0, 0], [.5, 0, 0, 0], [.75, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0]], b=[1 / 3, 0, 0, 0, 0, 2 / 3, 0], be=None,
                   c=[0, .5, .5, .5, .5, .75, 1],
                   W=([[0], [0, .5], [0, 0, .5], [0, 0, 0, 1], [0, 0, 0, .75, 0], [0, 0, .5, 0, 0, 0]], [0, 1 / 6, 1 / 3, 1 / 3, 1 / 6, 0, 0], None),
                   H=([[0], [0, 0], [0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1.5, 0], [0, 0, 0, 0, 0, 0]], [0, 0, 0, 2, 0, 0, -2], None)),
    "UserGenK": dict(a=[[.4], [.3, .2], [.1, .5, .2]], b=[.1, .2, .3, .4], be=[.2, -.1, -.2, .1], c=[0, .4, .5, .8],
                     W=([[.5], [.2, .4], [-.3, .6, .7]], [.4, .3, .2, .1], [.1, -.1, .2, -.2]),
                     H=([[.7], [.5, -.6], [.1, .2, .3]], [.5, -.5, 1., -1.], [.3, .1, -.2, -.2]),
                     K=([[-1.], [.4, .9], [.8, -.7, .6]], [1., 2., -1., -2.], [.5, 0., -.5, 0.])),
    "UserGenW": dict(a=[[1.]], b=[.5, .5], be=None, c=[0, 1.], W=([[1.]], [.5, .5], None)),
}


def user_solver(name):
    import diffrax as dfx
    from diffrax import AbstractSRK, AbstractStratonovichSolver, StochasticButcherTableau
    from typing import ClassVar
    add = name in ADD
    T = (ADD if add else GEN)[name]
    C = type((dfx.ShARK if add else dfx.SPaRK).tableau.coeffs_w)

    def co(k):
        if k not in T:
            return None
        if add:
            return C(a=np.array(T[k][0], float), b_sol=np.array(float(T[k][1])))
        be = T[k][2]
        return C(a=tuple(np.array(r, float) for r in T[k][0]), b_sol=np.array(T[k][1], float), b_error=None if be is None else np.array(be, float))
    tab = StochasticButcherTableau(a=[np.array(r, float) for r in T["a"]], b_sol=np.array(T["b"], float),
                                   b_error=None if T["be"] is None else np.array(T["be"], float), c=np.array(T["c"][1:], float),
                                   coeffs_w=co("W"), coeffs_hh=co("H"), coeffs_kk=co("K"), ignore_stage_f=None, ignore_stage_g=None)

    class User(AbstractSRK, AbstractStratonovichSolver):
        tableau: ClassVar[StochasticButcherTableau] = tab

        def order(self, terms):
            return 1

        def strong_order(self, terms):
            return 0.5

    User.__name__ = name
    return User()


def get_solver(name):
    import diffrax as dfx
    if name.startswith("User"):
        return user_solver(name)
    if name.startswith("Half("):
        return dfx.HalfSolver(get_solver(name[5:-1]))
    return getattr(dfx, name)()


# ---------------------------------------------------------------- reference steps (signed h, W, H, K)
def ref_srk(T, add, f, g, t, h, y, W, H, K):
    s = len(T["b"])
    A, b, c = lower(T["a"], s), np.array(T["b"]), np.array(T["c"])
    L = {"W": W, "H": H, "K": K}
    fs, gs = [], []
    for j in range(s):
        z = y + h * sum((A[j, i] * fs[i] for i in range(j)), np.zeros_like(y))
        for k in ("W", "H", "K"):
            if k in T:
                if add:
                    z = z + T[k][0][j] * (g(t, y) @ L[k])
                else:
                    z = z + sum((lower(T[k][0], s)[j, i] * (gs[i] @ L[k]) for i in range(j)), np.zeros_like(y))
        fs.append(f(t + c[j] * h, z))
        gs.append(g(t + c[j] * h, z))
    out = y + h * sum(b[j] * fs[j] for j in range(s))
    err = None if T["be"] is None else h * sum(T["be"][j] * fs[j] for j in range(s))
    for k in ("W", "H", "K"):
        if k in T:
            if add:
                out = out + T[k][1] * (g(t, y) @ L[k])
            else:
                out = out + sum(T[k][1][j] * (gs[j] @ L[k]) for j in range(s))
                if err is not None:
                    err = err + sum(T[k][2][j] * (gs[j] @ L[k]) for j in range(s))
    if add:
        out = out + (g(t + h, y) - g(t, y)) @ (W / 2 - (H if "H" in T else 0))
    return out, err


def ref_step(name, f, g, dg, t, h, y, W, H, K, st=None):
    """-> y1, error or None, state"""
    F = lambda t, y: h * f(t, y) + g(t, y) @ W
    if name in ADD:
        return (*ref_srk(ADD[name], True, f, g, t, h, y, W, H, K), None)
    if name in GEN:
        return (*ref_srk(GEN[name], False, f, g, t, h, y, W, H, K), None)
    if name == "Euler":
        return y + F(t, y), None, None
    if name == "EulerHeun":
        g0 = g(t, y) @ W
        return y + h * f(t, y) + (g0 + g(t, y + g0) @ W) / 2, None, None
    if name == "Heun":
        k1 = F(t, y)
        k2 = F(t + h, y + k1)
        return y + (k1 + k2) / 2, None, None
    if name == "Midpoint":
        k1 = F(t, y)
        return y + F(t + h / 2, y + k1 / 2), None, None
    if name == "Ralston":
        k1 = F(t, y)
        k2 = F(t + 2 / 3 * h, y + 2 / 3 * k1)
        return y + k1 / 4 + 3 * k2 / 4, None, None
    if name == "ReversibleHeun":
        z = y if st is None else st
        v0 = F(t, z)
        z1 = 2 * y - z + v0
        return y + (v0 + F(t + h, z1)) / 2, None, z1
    G = g(t, y)
    D = dg(t, y)                      # (i, j, k) = d g_ij / d y_k
    V = np.einsum("kj,ilk->ijl", G, D)  # g_kj g_il,k
    if name == "StratonovichMilstein":
        WW = np.outer(W, W)
    elif name == "ItoMilstein":
        WW = np.outer(W, W) - h * np.eye(len(W))
    else:
        raise ValueError(name)
    return y + h * f(t, y) + G @ W + .5 * np.einsum("ijl,jl->i", V, WW), None, None


# ---------------------------------------------------------------- problems
STRUCTS = ["scalar", "vector", "matrix", "matrix2d", "diag", "additive", "additive_t", "tree", "operator"]
GENERAL = ["Euler", "EulerHeun", "Heun", "Midpoint", "Ralston", "ReversibleHeun", "StratonovichMilstein", "ItoMilstein",
           "SPaRK", "GeneralShARK", "SlowRK", "UserGenK", "UserGenW", "Half(EulerHeun)", "Half(SPaRK)"]
ADDITIVE = ["SEA", "ShARK", "SRA1", "UserAddK", "UserAddW"]


class Prob:
    """f, g on flat vectors (numpy or jnp), and the user's view of them (PyTrees, operators)."""

    def __init__(self, kind, rng):
        self.kind = kind
        self.D, self.M = {"scalar": (1, 1), "vector": (3, 1), "matrix": (3, 2), "matrix2d": (4, 6), "diag": (3, 3), "additive": (3, 2), "additive_t": (3, 2),
                          "tree": (5, 3), "operator": (5, 3)}[kind]
        D, M = self.D, self.M
        self.A = rng.normal(size=(D, D)) * .5
        self.b, self.c = rng.normal(size=D), rng.normal(size=D)
        self.w = rng.uniform(.5, 3)
        mask = np.ones((D, M))
        if kind == "diag":
            mask = np.eye(D)
        if kind == "tree":   # y = {a: (2,), b: (3,)}, w = {a: (2,), b: ()}
            mask = np.zeros((D, M))
            mask[:2, :2] = 1
            mask[2:, 2] = 1
        self.mask = mask
        self.G0 = rng.normal(size=(D, M))
        self.G1 = rng.normal(size=(D, M, D)) * (0.0 if kind.startswith("additive") else .5)
        self.ph = rng.normal(size=D)
        self.tt = 0.0 if kind == "additive" else 1.0

    def f(self, xp, t, y):
        return self.A @ y + self.c * xp.tanh(y[::-1]) + self.b * xp.sin(self.w * t)

    def g(self, xp, t, y):
        out = self.G0 * (1 + self.tt * .4 * xp.sin(self.w * t + self.ph))[:, None]
        if not self.kind.startswith("additive"):
            out = out + self.G1 @ xp.sin(y + self.ph)
        return out * self.mask

    # user's structures
    def y_tree(self, v):
        k = self.kind
        if k == "scalar":
            return v[0]
        if k == "matrix2d":
            return v.reshape(2, 2)
        if k in ("tree", "operator"):
            return {"a": v[:2], "b": v[2:]}
        return v

    def w_tree(self, v):
        k = self.kind
        if k in ("scalar", "vector"):
            return v[0]
        if k == "matrix2d":
            return v.reshape(3, 2)
        if k == "tree":
            return {"a": v[:2], "b": v[2]}
        if k == "operator":
            return (v[0], v[1:])
        return v

    def drift(self, t, y, args):
        import jax.numpy as jnp
        from dv import rec
        return self.y_tree(self.f(jnp, t, rec.flat(y)))

    def diffusion(self, t, y, args):
        import jax.numpy as jnp
        import lineax as lx
        from dv import rec
        k = self.kind
        if k == "additive_t":
            G = self.g(jnp, t, None)
        elif k == "additive":
            return jnp.asarray(self.G0)
        else:
            G = self.g(jnp, t, rec.flat(y))
        if k == "scalar":
            return G[0, 0]
        if k == "vector":
            return G[:, 0]
        if k == "matrix2d":
            return G.reshape(2, 2, 3, 2)
        if k == "diag":
            return lx.DiagonalLinearOperator(jnp.diag(G))
        if k == "tree":
            return {"a": G[:2, :2], "b": G[2:, 2]}
        if k == "operator":
            import jax
            blocks = {"a": (G[:2, 0], G[:2, 1:]), "b": (G[2:, 0], G[2:, 1:])}
            st = {"a": jax.ShapeDtypeStruct((2,), G.dtype), "b": jax.ShapeDtypeStruct((3,), G.dtype)}
            return lx.PyTreeLinearOperator(blocks, st)
        return G


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 4
    for r in range(rep):
        for s in GENERAL + ADDITIVE:
            out.append((f"formula-{s}-{r}", dict(kind="formula", solver=s, rep=r, _cost=6)))
        for s in ("Euler", "ItoMilstein", "EulerHeun", "Heun", "Midpoint", "Ralston", "ReversibleHeun", "StratonovichMilstein", "SPaRK", "GeneralShARK", "SlowRK"):
            out.append((f"exact-{s}-{r}", dict(kind="exact", solver=s, rep=r, _cost=3)))
        for s in ("Euler", "EulerHeun", "Heun", "Midpoint", "Ralston", "ReversibleHeun", "SPaRK", "GeneralShARK", "SlowRK", "SEA", "ShARK", "SRA1",
                  "StratonovichMilstein", "ItoMilstein"):
            out.append((f"additive-{s}-{r}", dict(kind="additive", solver=s, rep=r, _cost=4)))
        for s in ("Euler", "EulerHeun", "Heun", "Midpoint", "Ralston", "ReversibleHeun", "SPaRK", "GeneralShARK", "SlowRK"):
            out.append((f"general-{s}-{r}", dict(kind="general", solver=s, rep=r, _cost=4)))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def run(name, p, mon):
    {"formula": run_formula, "exact": run_exact, "additive": run_additive, "general": run_general}[p["kind"]](name, p, mon)


def levy_for(name):
    import diffrax as dfx
    n = name[5:-1] if name.startswith("Half(") else name
    T = ADD.get(n) or GEN.get(n)
    if T is None or "H" not in T:
        return dfx.BrownianIncrement
    return dfx.SpaceTimeTimeLevyArea if "K" in T else dfx.SpaceTimeLevyArea


def run_formula(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import bm, rec

    s = p["solver"]
    solver = get_solver(s)
    base = s[5:-1] if s.startswith("Half(") else s
    if s in ADDITIVE:
        kinds = ["additive", "additive_t"]
    else:
        kinds = STRUCTS
        if mon.tier == "quick":
            rr = _rng(mon, "kinds", s, p["rep"])
            kinds = ["matrix", "tree"] + list(rr.choice(["scalar", "vector", "matrix2d", "diag", "additive_t", "operator"], 2, replace=False))
            if base.endswith("Milstein"):
                kinds = sorted(set(kinds) | {"scalar", "operator", "matrix2d"})
    for kind in kinds:
        rng = _rng(mon, "prob", s, kind, p["rep"])
        pr = Prob(kind, rng)
        d = 1 / 64
        a = float(rng.integers(-2, 2))
        levy = levy_for(s)
        if s in ADDITIVE + ["SPaRK"] and rng.random() < .3:
            levy = dfx.SpaceTimeTimeLevyArea     # more than the solver needs
        NS = 7

        @eqx.filter_jit
        def go(tab, y0, ts, t0, t1):
            path = bm.TabPath(tab, a, d, pr.w_tree, levy)
            terms = dfx.ODETerm(pr.drift), dfx.ControlTerm(pr.diffusion, path)
            # a bare tuple is the older spelling, still accepted for these solvers
            terms = terms if kind in ("scalar", "tree") and s in ("EulerHeun", "ItoMilstein", "StratonovichMilstein") else dfx.MultiTerm(*terms)
            sol = dfx.diffeqsolve(terms, solver, t0, t1, None, y0, stepsize_controller=rec.record(dfx.StepTo(ts=ts), 16), adjoint=dfx.DirectAdjoint(),
                                  saveat=dfx.SaveAt(steps=True, controller_state=True), max_steps=16)
            return sol.ys, sol.controller_state[1]["err"]
        dg = jax.jit(jax.jacfwd(lambda t, y: pr.g(jnp, t, y), argnums=1))
        tol = 3e-11
        for case in range(6 if mon.tier == "quick" else 30):
            tab = bm.table(rng, 256, a, a + 4.0, pr.M)
            direction = 1 if case % 2 == 0 else -1
            idx = np.sort(rng.choice(np.arange(0, 257, 2), NS + 1, replace=False))[::direction]
            idx = idx - (idx % 2)
            ts = a + idx * d
            y = rng.normal(size=pr.D)
            mon.case((s, kind, direction, case, p["rep"]), ts=ts)
            ys, errs = go(jnp.asarray(tab), pr.y_tree(jnp.asarray(y)), jnp.asarray(ts), ts[0], ts[-1])
            got = np.asarray(jax.vmap(rec.flat)(ys))[:NS]
            f_ = lambda t, y: pr.f(np, t, y)
            g_ = lambda t, y: pr.g(np, t, y)
            dg_ = lambda t, y: np.asarray(dg(t, y))
            st = None
            want, werr = [], []
            # each step is judged from the state the solver itself had reached
            prev = y
            for n in range(NS):
                h = ts[n + 1] - ts[n]
                W, H, K = bm.signed_whk(tab, a, d, idx[n], idx[n + 1])
                if s.startswith("Half("):
                    m = (idx[n] + idx[n + 1]) // 2
                    full, _, _ = ref_step(base, f_, g_, dg_, ts[n], h, prev, W, H, K)
                    mid, _, _ = ref_step(base, f_, g_, dg_, ts[n], h / 2, prev, *bm.signed_whk(tab, a, d, idx[n], m))
                    y1, _, _ = ref_step(base, f_, g_, dg_, a + m * d, h / 2, mid, *bm.signed_whk(tab, a, d, m, idx[n + 1]))
                    e = np.abs(y1 - full)
                else:
                    y1, e, st = ref_step(base, f_, g_, dg_, ts[n], h, prev, W, H, K, st)
                scale = 1 + np.abs(y1).max()
                mon.close(got[n] / scale, y1 / scale, "the step is the documented update in terms of the path's increments", atol=tol, step=n)
                if e is not None and s not in ("Half(EulerHeun)", "Half(SPaRK)"):
                    mon.close(np.abs(np.asarray(errs)[n]) / scale, np.abs(e) / scale, "the error estimate is the documented combination of stages", atol=tol, step=n)
                mon.event("formula_steps")
                prev = got[n]
    return


# ---------------------------------------------------------------- strong convergence
def family(mon, solver, mk_terms, y0, tab, T0, T1, want, order, ns, what, margin, small, cells, max_last=None):
    """want: (P, D) exact values at T1. tab: (P, 3, cells+1, M)."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    @eqx.filter_jit
    def go(tabs, n):
        def one(tab):
            sol = dfx.diffeqsolve(mk_terms(tab), solver, T0, T1, (T1 - T0) / n, y0, stepsize_controller=dfx.ConstantStepSize(), saveat=dfx.SaveAt(t1=True),
                                  max_steps=None, adjoint=dfx.ForwardMode())
            return sol.ys[0]
        return jax.vmap(one)(tabs)
    errs = []
    tabs = jnp.asarray(tab)
    for n in ns:
        got = np.asarray(go(tabs, jnp.asarray(float(n))))
        got = got.reshape(got.shape[0], -1)
        e = np.sqrt(np.mean(np.sum((got - want) ** 2, -1)))
        errs.append(e)
        mon.event("path_errors", got.shape[0])
    errs = np.array(errs)
    slope = -np.polyfit(np.log(ns), np.log(np.maximum(errs, 1e-300)), 1)[0]
    mon.event("families")
    mon.ok(np.all(np.isfinite(errs)), "finite", errs=errs)
    if mon.force:
        print("CAL", mon.task, what, order, "slope %.3f" % slope, errs)
    mon.ok(slope >= order - margin or errs.max() < 1e-9, f"strong order of convergence ({what}) is as documented", slope=slope, order=order, errs=errs, ns=list(ns))
    mon.le(errs[-1], small, f"converges to the right solution ({what})", errs=errs)


def run_exact(name, p, mon):
    """Commutative noise with exact solutions: X = sinh(...) (scalar, nonlinear) and diagonal exponentials with time-dependent coefficients."""
    import diffrax as dfx
    import jax.numpy as jnp
    from dv import bm
    s = p["solver"]
    solver = get_solver(s)
    ito = s in ("Euler", "ItoMilstein")
    order = {"Euler": .5, "ItoMilstein": 1, "SlowRK": 1.5}.get(s, 1.0)
    P = 300 if mon.tier == "quick" else 1500
    for prob in ("sinh", "expdiag"):
        for direction in (1, -1):
            if direction == -1 and s in ("Euler", "ItoMilstein"):
                continue   # the meaning of an Ito equation run backwards is not documented
            rng = _rng(mon, s, prob, direction, p["rep"])
            cells = 256
            a0 = float(rng.integers(-1, 2))
            M = 1 if prob == "sinh" else 2
            tab = np.stack([bm.table(rng, cells, a0, a0 + 1.0, M) for _ in range(P)])
            d = 1 / cells
            T0, T1 = (a0, a0 + 1.0) if direction == 1 else (a0 + 1.0, a0)
            dW = (tab[:, 0, -1] - tab[:, 0, 0]) * direction
            dT = T1 - T0
            lv = levy_for(s)
            if prob == "sinh":
                al, be = rng.uniform(-.5, .5), rng.uniform(.4, .7)
                x0 = rng.normal() * .5
                drift = lambda t, y, _: al * jnp.sqrt(1 + y * y) + (0.5 * be * be * y if ito else 0.0)
                diff = lambda t, y, _: (be * jnp.sqrt(1 + y * y))[:, None]
                y0 = jnp.array([x0])
                want = np.sinh(np.arcsinh(x0) + al * dT + be * dW)
            else:
                al, be = rng.uniform(-.5, .5, 2), rng.uniform(.3, .6, 2)
                y0 = jnp.asarray(1 + rng.random(2))
                om = 2.0
                drift = lambda t, y, _: y * (al * jnp.cos(om * t)) + (0.5 * be ** 2 * y if ito else 0.0)
                diff = lambda t, y, _: jnp.diag(be * y)
                want = np.asarray(y0) * np.exp(al * (np.sin(om * T1) - np.sin(om * T0)) / om + be * dW)
            mk = lambda tb: dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, bm.TabPath(tb, a0, d, lambda v: v, lv)))
            mon.case((s, prob, direction, p["rep"]), alpha=al, beta=be)
            small = {.5: .3, 1.0: .05, 1.5: 4e-3}[order]
            family(mon, solver, mk, y0, tab, T0, T1, want, order, [16, 32, 64, 128], prob, .2, small, cells)


def run_additive(name, p, mon):
    """Nonlinear drift, time-dependent additive noise; reference: parabola method on a grid 32 times finer."""
    import diffrax as dfx
    import jax.numpy as jnp
    from dv import bm
    s = p["solver"]
    solver = get_solver(s)
    order = 1.5 if s in ("ShARK", "SRA1", "SPaRK", "GeneralShARK", "SlowRK") else 1.0
    P = 250 if mon.tier == "quick" else 1000
    for timedep in (True, False):
        for direction in (1, -1):
            if s in ("Euler", "ItoMilstein") and direction == -1 and mon.tier == "quick":
                continue
            rng = _rng(mon, s, timedep, direction, p["rep"])
            cells = 2048
            d = 1 / cells
            a0 = float(rng.integers(-1, 2))
            M, D = 2, 2
            tab = np.stack([bm.table(rng, cells, a0, a0 + 1.0, M) for _ in range(P)])
            T0, T1 = (a0, a0 + 1.0) if direction == 1 else (a0 + 1.0, a0)
            A = rng.normal(size=(D, D)) * .5
            G0 = rng.normal(size=(D, M)) * .6
            G1 = rng.normal(size=(D, M)) * (.6 if timedep else 0)
            f = lambda xp, t, y: xp.sin(1.5 * y[..., ::-1]) + y @ A.T + xp.cos(3 * t)
            g = lambda xp, t: G0 + G1 * xp.sin(2 * t)
            drift = lambda t, y, _: f(jnp, t, y)
            diff = (lambda t, y, _: g(jnp, t)) if timedep else (lambda t, y, _: jnp.asarray(G0))
            x0 = rng.normal(size=D)
            # reference
            y = np.tile(x0, (P, 1))
            order_idx = range(cells) if direction == 1 else range(cells - 1, -1, -1)
            h = direction * d
            for i in order_idx:
                W, H, _ = [np.stack(v) for v in zip(*[(0, 0, 0)])] if False else bm_cell(tab, a0, d, i, direction)
                t = a0 + (i if direction == 1 else i + 1) * d

                def F(u, z):
                    rate = f(np, t + u * h, z) * h + (W + H * 6 * (1 - 2 * u)) @ g(np, t + u * h).T
                    return rate
                k1 = F(0., y)
                k2 = F(.5, y + k1 / 2)
                k3 = F(.5, y + k2 / 2)
                k4 = F(1., y + k3)
                y = y + (k1 + 2 * k2 + 2 * k3 + k4) / 6
            mon.case((s, "additive", timedep, direction, p["rep"]), G0=G0, G1=G1)
            lv = levy_for(s)
            mk = lambda tb: dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, bm.TabPath(tb, a0, d, lambda v: v, lv)))
            small = .15 if order == 1.0 else 6e-3
            family(mon, solver, mk, jnp.asarray(x0), tab, T0, T1, y, order, [8, 16, 32, 64], f"additive, timedep={timedep}", .2, small, cells)


def bm_cell(tab, a, d, i, direction):
    from dv import bm
    tb = np.moveaxis(tab, 0, -2)   # (3, cells+1, P, M)
    W, H, K = bm.whk(np, tb, a, d, i, i + 1)
    return direction * W, H, direction * K


def run_general(name, p, mon):
    """Non-commutative noise (order 1/2): reference is Heun (Stratonovich) or Euler (Ito) on the finest grid of the same path."""
    import diffrax as dfx
    import jax.numpy as jnp
    from dv import bm
    s = p["solver"]
    solver = get_solver(s)
    ito = s == "Euler"
    P = 200 if mon.tier == "quick" else 1000
    for direction in (1, -1):
        if direction == -1 and ito:
            continue
        rng = _rng(mon, s, direction, p["rep"])
        cells = 4096
        d = 1 / cells
        a0 = 0.0
        D = M = 2
        tab = np.stack([bm.table(rng, cells, a0, a0 + 1.0, M) for _ in range(P)])
        T0, T1 = (a0, a0 + 1.0) if direction == 1 else (a0 + 1.0, a0)
        A = rng.normal(size=(D, D)) * .4
        ph = rng.normal(size=(D, M))

        def g(xp, t, y):
            return 0.7 * xp.cos(y[..., ::-1, None] + ph + t)
        f = lambda xp, t, y: y @ A.T + xp.sin(t)
        # Heun on (g, f) of the finest increments; Ito converted by the correction 1/2 sum_j g_kj d_k g_ij
        x0 = rng.normal(size=D)
        y = np.tile(x0, (P, 1))
        h = direction * d
        dWs = np.diff(tab[:, 0], axis=1)

        def corr(t, y):
            G = g(np, t, y)
            dG = -0.7 * np.sin(y[..., ::-1, None] + ph + t)     # d g_ij / d y_{1-i}
            return .5 * np.einsum("pij,pij->pi", G[..., ::-1, :], dG)
        for i in (range(cells) if direction == 1 else range(cells - 1, -1, -1)):
            W = direction * dWs[:, i]
            t = a0 + (i if direction == 1 else i + 1) * d

            def F(t, y):
                ff = f(np, t, y) - (corr(t, y) if ito else 0)
                return ff * h + np.einsum("pij,pj->pi", g(np, t, y), W)
            k1 = F(t, y)
            y = y + .5 * (k1 + F(t + h, y + k1))
        drift = lambda t, y, _: f(jnp, t, y)
        diff = lambda t, y, _: g(jnp, t, y)
        lv = levy_for(s)
        mk = lambda tb: dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, bm.TabPath(tb, a0, d, lambda v: v, lv)))
        mon.case((s, "general", direction, p["rep"]))
        family(mon, solver, mk, jnp.asarray(x0), tab, T0, T1, y, .5, [8, 32, 128], "non-commutative", .2, .2, cells)
