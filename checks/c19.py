"""C19: implicit steps solve their equations; structure-preserving solvers preserve."""
import zlib

import numpy as np

PROPERTY = "C19"
RULE = ("one evaluation = one real implicit step or one real structure-preserving solve; distinct = (solver, root finder, problem, tolerances / grid, seed); "
        "non-trivial = the step reported success; events: successful steps compared with the exactly solved stage equations, stiffness range, "
        "Jacobians checked for symplecticity, retraced steps")
ASSUMPTIONS = ["the stage equations are those of the solver's own tableau (whose order is C06's business)",
               "comparison only where the stage equations have a unique solution (monotone problems)",
               "allowed distance from the exact stage solution: a small multiple of the root finder's tolerance on the stage increments"]
MIN_EVENTS = {"implicit_steps": 1500, "implicit_solve_steps": 200, "stiff_steps": 1500, "very_stiff": 400, "imex_steps": 200, "symplectic": 20,
              "retraced_steps": 200, "formula_steps": 300}
IMPL = ("ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "UserSDIRK", "UserDIRK")
IMEX = ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3")


def _rng(mon, *k):
    return np.random.default_rng(zlib.crc32(repr((mon.seed,) + k).encode()))


# ---------------------------------------------------------------- solvers and their stage equations
def user(name, rf):
    import diffrax as dfx
    from typing import ClassVar
    if name == "UserSDIRK":      # Alexander's two stage L-stable SDIRK, with an embedded Euler
        g = 1 - np.sqrt(.5)
        tab = dfx.ButcherTableau(a_lower=(np.array([1 - g]),), b_sol=np.array([1 - g, g]), b_error=np.array([1 - g, g]) - np.array([1., 0.]),
                                 c=np.array([1.0]), a_diagonal=np.array([g, g]), a_predictor=(np.array([1.0]),), c1=g)

        class U(dfx.AbstractSDIRK):
            tableau: ClassVar = tab
            interpolation_cls: ClassVar = dfx.ThirdOrderHermitePolynomialInterpolation.from_k
            root_finder: object = rf
            root_find_max_steps: int = 10

            def order(self, terms):
                return 2
    else:                        # three implicit stages, all with different diagonals
        tab = dfx.ButcherTableau(a_lower=(np.array([.3]), np.array([.5, .1])), b_sol=np.array([.3, .2, .5]), b_error=np.array([.1, -.3, .2]),
                                 c=np.array([.65, 1.0]), a_diagonal=np.array([.25, .35, .4]), a_predictor=(np.array([1.0]), np.array([.5, .5])), c1=.25)

        class U(dfx.AbstractDIRK):
            tableau: ClassVar = tab
            interpolation_cls: ClassVar = dfx.ThirdOrderHermitePolynomialInterpolation.from_k
            root_finder: object = rf
            root_find_max_steps: int = 10

            def order(self, terms):
                return 1
    return U()


def solver_of(name, rf, ms=10):
    import diffrax as dfx
    if name.startswith("User"):
        return user(name, rf)
    kw = {} if rf is None else dict(root_finder=rf, root_find_max_steps=ms)
    return getattr(dfx, name)(**kw)


def full(tab):
    s = tab.num_stages
    A = np.zeros((s, s))
    for i, r in enumerate(tab.a_lower):
        A[i + 1, :i + 1] = r
    if tab.a_diagonal is not None:
        A += np.diag(tab.a_diagonal)
    c = np.concatenate([[tab.c1 if tab.implicit else 0.0], tab.c])
    return A, np.asarray(tab.b_sol), np.asarray(tab.b_error), c


def tableau(name):
    """[(A, b, be, c)] for the explicit (or None) and the implicit part."""
    import diffrax as dfx
    if name == "ImplicitEuler":    # the embedded error uses the explicit Euler increment
        return None, (np.array([[0., 0.], [0., 1.]]), np.array([0., 1.]), np.array([-.5, .5]), np.array([0., 1.]))
    t = user(name, None).tableau if name.startswith("User") else getattr(dfx, name).tableau
    if isinstance(t, dfx.MultiButcherTableau):
        e, i = t.tableaus
        return full(e), full(i)
    return None, full(t)


def exact_step(tabs, fe, fi, ji, t, h, y, f0=None, f0e=None):
    """Solve the stage equations exactly (Newton in float64). Returns y1, error, increments (implicit), converged, last implicit increment/h."""
    te, ti = tabs
    A, b, be, c = ti
    s = len(b)
    n = len(y)
    K, E = np.zeros((s, n)), np.zeros((s, n))
    ok = True
    for i in range(s):
        base = y + A[i, :i] @ K[:i]
        if te is not None:
            base = base + te[0][i, :i] @ E[:i]
        ts = t + c[i] * h
        a = A[i, i]
        if a == 0:
            K[i] = h * (fi(ts, base) if (i > 0 or f0 is None) else f0)
        else:
            k = h * fi(ts, base)
            k = np.linalg.solve(np.eye(n) - h * a * ji(ts, base), k)

            def res(k):
                return k - h * fi(ts, base + a * k)
            r = res(k)
            for it in range(200):
                J = np.eye(n) - h * a * ji(ts, base + a * k)
                d = np.linalg.solve(J, r)
                lam = 1.0
                for _ in range(40):
                    k2 = k - lam * d
                    r2 = res(k2)
                    dd = np.linalg.solve(J, r2)
                    if np.max(abs(dd)) < (1 - lam / 4) * np.max(abs(d)) or np.max(abs(d)) < 1e-13 * (np.max(abs(k)) + 1e-300):
                        break
                    lam /= 2
                k, r = k2, r2
                if np.max(abs(d)) <= 1e-14 * (np.max(abs(k)) + np.max(abs(y)) * 1e-3) + 1e-300:
                    break
            else:
                ok = np.max(abs(d)) <= 1e-11 * (np.max(abs(k)) + np.max(abs(y)))
            K[i] = k
        if te is not None:
            E[i] = h * fe(t + te[3][i] * h, base + a * K[i])
    y1 = y + b @ K
    er = be @ K
    if te is not None:
        y1 = y1 + te[1] @ E
        er = er + te[2] @ E
    return y1, er, K, ok, K[-1] / h


# ---------------------------------------------------------------- problems: monotone, so every stage has exactly one solution
N = 4


def fields(xp, kind, P):
    """(implicit field, explicit field); P: dict of arrays"""
    def g(t):
        return xp.stack([xp.cos(t), xp.sin(2 * t), xp.cos(3 * t + 1), xp.sin(t)])

    def lin(t, y):
        return P["A"] @ (y - g(t))

    def quart(t, y):       # - grad of a convex quartic, skew coupling, stiff quadratic part
        return P["A"] @ y - P["B"].T @ (P["B"] @ y) ** 3 + P["S"] @ y + g(t)

    def soft(t, y):        # - grad of a convex softplus-like potential
        return P["A"] @ y - P["B"].T @ xp.tanh(P["B"] @ y * 3) * 5 + P["S"] @ y + g(t)
    f = dict(lin=lin, quart=quart, soft=soft)[kind]
    ex = lambda t, y: xp.sin(P["S"] @ y) + 0.5 * g(t + 1)
    return f, ex


def cjac(f):
    def J(t, y):
        n = len(y)
        out = np.empty((n, n))
        for j in range(n):
            z = y.astype(complex)
            z[j] += 1e-30j
            out[:, j] = f(t, z).imag / 1e-30
        return out
    return J


def params(rng, lo=0, hi=5, n=1):
    A, B, S = [], [], []
    for _ in range(n):
        Q = np.linalg.qr(rng.normal(size=(N, N)))[0]
        A.append(-Q @ np.diag(10.0 ** rng.uniform(lo, hi, size=N)) @ Q.T)
        B.append(rng.normal(size=(N, N)))
        s = rng.normal(size=(N, N)) * rng.choice([.3, 3.0])
        S.append(s - s.T)
    return dict(A=np.stack(A), B=np.stack(B), S=np.stack(S))


def terms_of(imex, fi, fe):
    import diffrax as dfx
    ti = dfx.ODETerm(lambda t, y, args: fi(t, y))
    return dfx.MultiTerm(dfx.ODETerm(lambda t, y, args: fe(t, y)), ti) if imex else ti


RF = ("verychord", "newton", "chord")


def rf_of(kind, r, a):
    import diffrax as dfx
    import optimistix as optx
    if kind == "verychord":
        return dfx.VeryChord(rtol=r, atol=a)
    return dict(newton=optx.Newton, chord=optx.Chord)[kind](rtol=r, atol=a)


def direct(p, mon):
    """Single steps of the public stepping interface, batched over problems, step sizes and tolerances."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    name, kind, rf = p["solver"], p["prob"], p["rf"]
    rng = _rng(mon, "direct", name, kind, rf)
    imex = name in IMEX
    M = p["n"]
    P = params(rng, n=M)
    h = 10.0 ** rng.uniform(-4, .5, size=M)
    if rf == "verychord" and kind != "lin":
        h = 10.0 ** rng.uniform(-4, -1, size=M)
    t = rng.uniform(-2, 2, size=M)
    y = rng.normal(size=(M, N)) * 10.0 ** rng.uniform(-1, .5, size=(M, 1))
    rt = 10.0 ** rng.uniform(-11, -2, size=M)
    at = rt * 10.0 ** rng.uniform(-2, 0, size=M)

    def one(P, t, h, y, r, a):
        fi, fe = fields(jnp, kind, P)
        solver = solver_of(name, rf_of(rf, r, a), 30)
        terms = terms_of(imex, fi, fe)
        st = solver.init(terms, t, t + h, y, None)
        y1, er, _, _, res = solver.step(terms, t, t + h, y, None, st, jnp.asarray(False))
        return y1, (y1 if er is None else er), res == dfx.RESULTS.successful
    Y1, ER, OK = (np.asarray(q) for q in jax.jit(jax.vmap(one))(P, t, h, y, rt, at))
    tabs = tableau(name)
    amp = 1 + np.abs(tabs[1][1]).sum()
    amp_e = 1 + np.abs(tabs[1][2]).sum()
    worst = 0
    mon.event("reported_failures", int((~OK).sum()))
    guess = rf != "newton" and kind != "lin" and (name == "ImplicitEuler" or name.startswith("User"))
    for m in range(M):
        if not OK[m]:
            continue
        Pm = {k: v[m] for k, v in P.items()}
        fi, fe = fields(np, kind, Pm)
        y1, er, K, ok, _ = exact_step(tabs, fe, fi, cjac(fi), t[m], (t[m] + h[m]) - t[m], y[m])
        if not ok:
            mon.event("reference_unconverged")
            continue
        mon.event("implicit_steps")
        if imex:
            mon.event("imex_steps")
        hl = h[m] * np.abs(np.linalg.eigvalsh(Pm["A"])).max()
        ks = np.abs(K[np.diag(tabs[1][0]) != 0]).max()     # (an explicit first stage is not root-found)
        tol = at[m] + rt[m] * ks + 1e-13 * (np.abs(y[m]).max() + ks) * (1 + (hl if not imex else hl) * 1e-2)
        if guess:
            # chord methods judge convergence from the ratio of the last two updates; starting from the explicit increment, that ratio may be dominated by
            # the (linear) stiff part
            tol = tol + np.sqrt(.01 * tol * float(np.abs(h[m] * fi(t[m], y[m]) - K).max()))
        mon.case((name, kind, rf, m), hl=float(hl), rtol=float(rt[m]))
        e1 = float(np.abs(Y1[m] - y1).max())
        e2 = float(np.abs(ER[m] - er).max())
        info = dict(solver=name, problem=kind, root_finder=rf, index=m, h=float(h[m]), stiffness=float(hl), rtol=float(rt[m]), atol=float(at[m]))
        mon.le(e1, p["C"] * amp * tol, "a step reported successful satisfies its stage equations", **info)
        mon.le(e2, p["C"] * amp_e * tol, "the error estimate is that of the solved stages", **info)
        worst = max(worst, hl)
    mon.event("very_stiff_direct", int(worst > 1e3))


def insolve(p, mon):
    """Accepted steps of adaptive solves with the default root finder."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    name, kind = p["solver"], p["prob"]
    rng = _rng(mon, "insolve", name, kind)
    imex = name in IMEX
    MS = 200

    def one(P, y, r, a, t0, t1):
        fi, fe = fields(jnp, kind, P)
        solver = solver_of(name, None)
        ctrl = dfx.PIDController(rtol=r, atol=a)
        sol = dfx.diffeqsolve(terms_of(imex, fi, fe), solver, t0, t1, 1e-3, y, stepsize_controller=ctrl, saveat=dfx.SaveAt(t0=True, steps=True), max_steps=MS,
                              throw=False, adjoint=dfx.ForwardMode())
        return sol.ts, sol.ys, sol.stats["num_accepted_steps"], sol.stats["num_rejected_steps"]
    run = jax.jit(one)
    tabs = tableau(name)
    fsal = name not in ("ImplicitEuler",) and tabs[1][0][0, 0] == 0
    amp = 1 + np.abs(tabs[1][1]).sum()
    for q in range(p["n"]):
        P = params(rng, hi=4)
        P = {k: v[0] for k, v in P.items()}
        y = rng.normal(size=N)
        r = 10.0 ** rng.uniform(-7, -3)
        a = r * 10.0 ** rng.uniform(-2, 0)
        ts, ys, na, nr = (np.asarray(z) for z in run(P, y, r, a, 0.0, 1.0))
        na = int(na)
        ts, ys = ts[:na + 1], ys[:na + 1]
        mon.case((name, kind, "solve", q), accepted=na, rejected=int(nr))
        fi, fe = fields(np, kind, P)
        f0 = None
        for i in range(na):
            h = ts[i + 1] - ts[i]
            y1, er, K, ok, f1 = exact_step(tabs, fe, fi, cjac(fi), ts[i], h, ys[i], f0 if fsal else None)
            if not ok:
                mon.event("reference_unconverged")
                f0 = None
                break
            f0 = f1
            mon.event("implicit_solve_steps")
            if imex:
                mon.event("imex_steps")
            ks = np.abs(K[np.diag(tabs[1][0]) != 0]).max()
            hp = ts[i] - ts[i - 1] if i else h
            # the carried-over stage of the previous step has its own root-finding error, scaled by the ratio of the steps
            tol = (a + r * ks) * (1 + h / hp) * np.sqrt(N) + 1e-13 * np.abs(ys[i]).max()
            e = float(np.abs(ys[i + 1] - y1).max())
            mon.le(e, p["C"] * amp * tol, "an accepted implicit step satisfies its stage equations", solver=name, problem=kind, rep=q, step=i, h=float(h), rtol=float(r),
                   atol=float(a))


def stiff(p, mon):
    """Linear decay at any stiffness: stable, and the step is the method's rational function of h*A."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    name = p["solver"]
    rng = _rng(mon, "stiff", name)
    imex = name in IMEX
    M, S = p["n"], 12
    lam = 10.0 ** rng.uniform(-2, 9, size=(M, N))
    Q = np.linalg.qr(rng.normal(size=(M, N, N)))[0]
    A = -Q @ (lam[..., None] * np.swapaxes(Q, 1, 2))
    om = rng.normal(size=(M, N, N))
    y = rng.normal(size=(M, N))
    h = 10.0 ** rng.uniform(-2, 0, size=M)

    def one(A, y, h):
        fi = lambda t, y: A @ y
        # implicit Euler starts from the explicit increment, so its root finder must be allowed to iterate away the rounding error of that
        solver = solver_of(name, rf_of("chord" if name == "ImplicitEuler" else "verychord", 1e-7, 1e-7))
        terms = terms_of(imex, fi, lambda t, y: jnp.zeros_like(y))
        sol = dfx.diffeqsolve(terms, solver, 0.0, S * h, h, y, saveat=dfx.SaveAt(t0=True, steps=True), max_steps=S + 1, throw=False, adjoint=dfx.ForwardMode())
        return sol.ts, sol.ys, sol.result == dfx.RESULTS.successful
    ts, ys, ok = (np.asarray(z) for z in jax.jit(jax.vmap(one))(A, y, h))
    tabs = tableau(name)
    Ai, b, be, c = tabs[1]
    s = len(b)
    for m in range(M):
        mon.case((name, "stiff", m), stiffness=float(lam[m].max() * h[m]))
        info = dict(solver=name, index=m, h=float(h[m]), stiffness=float(lam[m].max() * h[m]))
        if not ok[m]:
            # beyond this the rounding error of the field itself exceeds the tolerance: reporting failure is right
            mon.event("reported_failures")
            mon.le(3e4, float(lam[m].max() * h[m]), "a stiff linear solve is reported successful", **info)
            continue
        V = ys[m][:S + 1] @ Q[m]        # modal amplitudes
        if not mon.ok(bool(np.all(np.isfinite(V))), "a stiff linear solve stays finite", **info):
            continue
        z = -lam[m] * h[m]
        R = np.array([1 + zz * (b @ np.linalg.solve(np.eye(s) - zz * Ai, np.ones(s))) for zz in z])
        nrm = np.linalg.norm(V, axis=-1)
        mon.event("stiff_steps", S)
        if lam[m].max() * h[m] > 1e4:
            mon.event("very_stiff")
        astable = p["astable"]
        if astable:
            mon.le(float((nrm[1:] - nrm[:-1]).max()), 3e-6 * float(nrm[0]), "a decaying problem does not grow, at any step size", **info)
        # first step: exactly the method's rational function
        tol = 3e-7 * np.abs(V[0]).max() + 1e-13 * np.abs(R) * np.abs(V[0])
        mon.le(float((np.abs(V[1] - R * V[0]) / tol).max()), 1.0, "a stiff linear step is the method's rational function", **info)
        mon.le(float(np.abs(V[-1][np.abs(z) < 50] - (R ** S * V[0])[np.abs(z) < 50]).max(initial=0)), 1e-5 * float(np.abs(V[0]).max()),
               "non-stiff components follow the method's rational function", **info)


def manifold(p, mon):
    """y' = -L (y - phi) + phi': the numerical solution follows phi whatever L."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    name = p["solver"]
    rng = _rng(mon, "manifold", name)
    imex = name in IMEX
    S = 40
    M = p["n"]
    L = 10.0 ** rng.uniform(3, 8, size=M)
    w = rng.uniform(.5, 1.5, size=M)

    def one(L, w, h):
        fi = lambda t, y: -L * (y - jnp.cos(w * t)) - w * jnp.sin(w * t)
        terms = terms_of(imex, fi, lambda t, y: jnp.zeros_like(y))
        solver = solver_of(name, rf_of("verychord", 1e-9, 1e-9))
        sol = dfx.diffeqsolve(terms, solver, 0.0, S * h, h, jnp.asarray([1.0]), max_steps=S + 1, throw=False, adjoint=dfx.ForwardMode())
        return sol.ys[0, 0], sol.result == dfx.RESULTS.successful
    h = 10.0 ** rng.uniform(-2, -1, size=M)
    y, ok = (np.asarray(q) for q in jax.jit(jax.vmap(one))(L, w, h))
    e = np.abs(y - np.cos(w * S * h))
    for m in range(M):
        mon.case((name, "manifold", m))
        mon.event("stiff_steps", S)
        info = dict(solver=name, L=float(L[m]), h=float(h[m]))
        mon.ok(bool(ok[m]), "the stiff solve is reported successful", **info)
        mon.le(float(e[m]), p["C"] * h[m] ** 2 + 1e-6, "the solution follows the slow manifold", **info)


# ---------------------------------------------------------------- symplectic
def symplectic(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, "sym", p["tree"], p["grid"])
    d = 3

    def tofro(tree):
        if not tree:
            return (lambda z: z), (lambda z: z)
        return (lambda z: {"a": z[:1], "b": (z[1:],)}), (lambda q: jnp.concatenate([q["a"], q["b"][0]]))
    pk, up = tofro(p["tree"])
    S = 15

    def flow(z, B, C, ts):
        # H = T(p, t) + U(q, t);  q' = dT/dp, p' = -dU/dq
        T = lambda pp, t: jnp.sum(jnp.log(jnp.cosh(C @ pp))) + 0.5 * jnp.sum(pp ** 2) * (1 + .3 * jnp.sin(t))
        U = lambda q, t: jnp.sum(jnp.cos(B @ q)) + jnp.sum(jnp.log(jnp.cosh(2 * B @ q))) + jnp.cos(2 * t) * jnp.sum(q)
        tq = dfx.ODETerm(lambda t, y, args: pk(jax.grad(T)(up(y), t)))
        tp = dfx.ODETerm(lambda t, y, args: jax.tree_util.tree_map(lambda g: -g, pk(jax.grad(U)(up(y), t))))
        y0 = (pk(z[:d]), pk(z[d:]))
        sol = dfx.diffeqsolve((tq, tp), dfx.SemiImplicitEuler(), ts[0], ts[-1], None, y0, stepsize_controller=dfx.StepTo(ts=ts),
                              saveat=dfx.SaveAt(t0=True, steps=True), max_steps=S, adjoint=dfx.ForwardMode())
        qs, ps = jax.vmap(lambda a: up(a))(sol.ys[0]), jax.vmap(lambda a: up(a))(sol.ys[1])
        return jnp.concatenate([qs[-1], ps[-1]]), (qs, ps)

    def formula(q, pp, B, C, t, h):
        gT = lambda r, t: jax.grad(lambda r: jnp.sum(jnp.log(jnp.cosh(C @ r))) + 0.5 * jnp.sum(r ** 2) * (1 + .3 * jnp.sin(t)))(r)
        gU = lambda r, t: jax.grad(lambda r: jnp.sum(jnp.cos(B @ r)) + jnp.sum(jnp.log(jnp.cosh(2 * B @ r))) + jnp.cos(2 * t) * jnp.sum(r))(r)
        q1 = q + h * gT(pp, t)
        return q1, pp - h * gU(q1, t)
    run = jax.jit(jax.vmap(jax.jacfwd(flow, has_aux=True)))
    form = jax.jit(jax.vmap(jax.vmap(formula, in_axes=(0, 0, None, None, 0, 0))))
    M = p["n"]
    z = rng.normal(size=(M, 2 * d)) * .7
    B, C = rng.normal(size=(M, d, d)) * .5, rng.normal(size=(M, d, d)) * .5
    st = rng.uniform(.02, .3, size=(M, S)) if p["grid"] == "uneven" else np.full((M, S), .1)
    if p["grid"] == "back":
        st = -st
    ts = rng.uniform(-1, 1, size=(M, 1)) + np.concatenate([np.zeros((M, 1)), np.cumsum(st, 1)], 1)
    Jm, (qs, ps) = run(z, B, C, ts)
    Jm, qs, ps = np.asarray(Jm), np.asarray(qs), np.asarray(ps)
    Om = np.block([[np.zeros((d, d)), np.eye(d)], [-np.eye(d), np.zeros((d, d))]])
    q1, p1 = (np.asarray(k) for k in form(qs[:, :-1], ps[:, :-1], B, C, ts[:, :-1], np.diff(ts)))
    for m in range(M):
        mon.case(("symplectic", p["tree"], p["grid"], m))
        J = Jm[m]
        mon.event("symplectic")
        mon.event("formula_steps", S)
        mon.le(float(np.abs(J.T @ Om @ J - Om).max()), 1e-13 * float(1 + np.abs(J).max() ** 2) * 50, "the flow map preserves the symplectic form", grid=p["grid"], tree=p["tree"],
               index=m, size=float(np.abs(J).max()))
        e = max(float(np.abs(q1[m] - qs[m, 1:]).max()), float(np.abs(p1[m] - ps[m, 1:]).max()))
        mon.le(e, 1e-12 * float(1 + np.abs(qs[m]).max() + np.abs(ps[m]).max()) ** 3, "semi-implicit Euler takes the documented step", grid=p["grid"], tree=p["tree"], index=m)


def energy(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, "energy")
    S = p["S"]

    def one(q, r, h, k):
        tq = dfx.ODETerm(lambda t, y, args: y)
        tp = dfx.ODETerm(lambda t, y, args: -k * jnp.sin(y))
        ts = jnp.linspace(0.0, 1.0, 401) * (S * h)
        sol = dfx.diffeqsolve((tq, tp), dfx.SemiImplicitEuler(), 0.0, S * h, h, (q, r), max_steps=S + 10, saveat=dfx.SaveAt(ts=ts), adjoint=dfx.ForwardMode())
        return sol.ys
    M = 6
    q, r, h, k = rng.uniform(-1.5, 1.5, M), rng.uniform(-.5, .5, M), rng.uniform(.02, .15, M), rng.uniform(.5, 2, M)
    Q, Rr = (np.asarray(z) for z in jax.jit(jax.vmap(one))(q, r, h, k))
    for m in range(M):
        E = Rr[m] ** 2 / 2 - k[m] * np.cos(Q[m])
        a, b = E[:100], E[-100:]
        mon.case(("energy", m))
        mon.event("long_steps", S)
        mon.le(float(max(b.max() - a.max(), a.min() - b.min())), .25 * float(a.max() - a.min()) + 1e-9, "no energy drift over long times", index=m, h=float(h[m]), steps=S)


# ---------------------------------------------------------------- reversible
def retrace(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    from dv import bm as bmm
    rng = _rng(mon, "retrace", p["noise"], p["grid"])
    d, S, CELLS = 3, 16, 512
    noise = p["noise"]

    def terms(B, C, tab, w):
        f = lambda t, y, args: jnp.tanh(B @ y) + jnp.cos(t) * w
        if noise == "none":
            return dfx.ODETerm(f)
        path = bmm.TabPath(tab, jnp.asarray(0.0), jnp.asarray(1.0 / CELLS), lambda z: z, dfx.BrownianIncrement)
        g = lambda t, y, args: 0.5 * jnp.sin(jnp.outer(C @ y, w) + t)
        return dfx.MultiTerm(dfx.ODETerm(f), dfx.ControlTerm(g, path))

    def there(y, ts, B, C, tab, w):
        tm = terms(B, C, tab, w)
        s1 = dfx.diffeqsolve(tm, dfx.ReversibleHeun(), ts[0], ts[-1], None, y, stepsize_controller=dfx.StepTo(ts=ts), saveat=dfx.SaveAt(t0=True, steps=True, solver_state=True),
                             max_steps=S, adjoint=dfx.ForwardMode())
        s2 = dfx.diffeqsolve(tm, dfx.ReversibleHeun(), ts[-1], ts[0], None, s1.ys[-1], stepsize_controller=dfx.StepTo(ts=ts[::-1]),
                             saveat=dfx.SaveAt(t0=True, steps=True, solver_state=True), max_steps=S, adjoint=dfx.ForwardMode(), solver_state=s1.solver_state)
        return s1.ys, s2.ys
    M = p["n"]
    B, C, w = rng.normal(size=(M, d, d)), rng.normal(size=(M, d, d)), rng.normal(size=(M, d))
    tab = np.stack([bmm.table(rng, CELLS, 0.0, 1.0, d) for _ in range(M)])
    if p["grid"] == "constant":
        idx = np.tile(np.arange(S + 1) * (CELLS // S), (M, 1))
    else:
        idx = np.stack([np.sort(np.concatenate([[0, CELLS], rng.choice(np.arange(1, CELLS), S - 1, replace=False)])) for _ in range(M)])
    if p["grid"] == "back":
        idx = idx[:, ::-1]
    ts = idx / CELLS
    y = rng.normal(size=(M, d))
    a, b = (np.asarray(z) for z in jax.jit(jax.vmap(there))(y, ts, B, C, tab, w))
    for m in range(M):
        mon.case(("retrace", noise, p["grid"], m))
        mon.event("retraced_steps", S)
        mon.le(float(np.abs(b[m][::-1] - a[m]).max()), 1e-9 * float(1 + np.abs(a[m]).max()), "running the reversible solver back retraces its steps", noise=noise, grid=p["grid"],
               index=m)
        # documented recurrence
        yy, yh = a[m][0], a[m][0]
        f = lambda t, y: np.tanh(B[m] @ y) + np.cos(t) * w[m]
        g = lambda t, y: 0.5 * np.sin(np.outer(C[m] @ y, w[m]) + t)
        worst = 0
        for i in range(S):
            h = ts[m][i + 1] - ts[m][i]
            dW = tab[m][0, idx[m][i + 1]] - tab[m][0, idx[m][i]]
            inc = lambda t, q: f(t, q) * h + (g(t, q) @ dW if noise != "none" else 0)
            k0 = inc(ts[m][i], yh)
            yh1 = 2 * yy - yh + k0
            k1 = inc(ts[m][i + 1], yh1)
            y1 = yy + (k0 + k1) / 2
            worst = max(worst, float(np.abs(y1 - a[m][i + 1]).max()))
            yy, yh = y1, yh1
        mon.event("formula_steps", S)
        mon.le(worst, 1e-10 * float(1 + np.abs(a[m]).max()), "reversible Heun takes the documented steps", noise=noise, grid=p["grid"], index=m)


def leapfrog(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, "leap", p["grid"])
    d, S = 3, 16

    def one(y, ts, B, w):
        f = lambda t, y, args: jnp.tanh(B @ y) + jnp.cos(t) * w
        s = dfx.diffeqsolve(dfx.ODETerm(f), dfx.LeapfrogMidpoint(), ts[0], ts[-1], None, y, stepsize_controller=dfx.StepTo(ts=ts), saveat=dfx.SaveAt(t0=True, steps=True),
                            max_steps=S, adjoint=dfx.ForwardMode())
        return s.ys
    M = p["n"]
    st = rng.uniform(.01, .1, size=(M, S)) if p["grid"] != "constant" else np.full((M, S), .05)
    if p["grid"] == "back":
        st = -st
    ts = rng.uniform(-1, 1, size=(M, 1)) + np.concatenate([np.zeros((M, 1)), np.cumsum(st, 1)], 1)
    B, w, y = rng.normal(size=(M, d, d)), rng.normal(size=(M, d)), rng.normal(size=(M, d))
    a = np.asarray(jax.jit(jax.vmap(one))(y, ts, B, w))
    for m in range(M):
        f = lambda t, y: np.tanh(B[m] @ y) + np.cos(t) * w[m]
        mon.case(("leapfrog", p["grid"], m))
        r = [a[m][1] - a[m][0] - (ts[m][1] - ts[m][0]) * f(ts[m][0], a[m][0])]
        for i in range(1, S):
            r.append(a[m][i + 1] - a[m][i - 1] - (ts[m][i + 1] - ts[m][i - 1]) * f(ts[m][i], a[m][i]))
        mon.event("formula_steps", S)
        mon.event("retraced_steps", S - 1)
        mon.le(float(np.abs(r).max()), 1e-12 * float(1 + np.abs(a[m]).max()), "leapfrog/midpoint satisfies its symmetric three-term relation", grid=p["grid"], index=m)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    k = 0
    for s in IMPL + IMEX:
        k += 1
        for ip, pr in enumerate(("lin", "quart", "soft")):
            for ir, rf in enumerate(RF):
                if not th and (k + ip + ir + seed) % 3 and not (rf == "verychord" and pr == "lin"):
                    continue
                out.append((f"direct-{s}-{pr}-{rf}", dict(solver=s, prob=pr, rf=rf, n=80 if not th else 600, C=2.0, _cost=3)))
        if not s.startswith("User"):
            for pr in ("quart", "soft")[seed % 2:seed % 2 + 1] if not th else ("quart", "soft", "lin"):
                out.append((f"insolve-{s}-{pr}", dict(solver=s, prob=pr, n=3 if not th else 20, C=2.0, _cost=6)))
        out.append((f"stiff-{s}", dict(solver=s, n=60 if not th else 600, rf=True, astable=s not in ("UserDIRK",), _cost=3)))
        if s != "UserDIRK":      # (not stiffly accurate)
            out.append((f"manifold-{s}", dict(solver=s, n=20 if not th else 200, C=5.0)))
    for tr in (False, True):
        for g in ("uneven", "constant", "back"):
            out.append((f"symplectic-{int(tr)}-{g}", dict(tree=tr, grid=g, n=10 if not th else 60)))
    out.append(("energy", dict(S=20000 if not th else 200000)))
    for nz in ("none", "general"):
        for g in ("uneven", "constant", "back"):
            out.append((f"retrace-{nz}-{g}", dict(noise=nz, grid=g, n=6 if not th else 60)))
    for g in ("uneven", "constant", "back"):
        out.append((f"leapfrog-{g}", dict(grid=g, n=6 if not th else 60)))
    return out


def run(name, p, mon):
    {"direct": direct, "insolve": insolve, "stiff": stiff, "manifold": manifold, "symplectic": symplectic, "energy": energy, "retrace": retrace,
     "leapfrog": leapfrog}[name.split("-")[0]](p, mon)
