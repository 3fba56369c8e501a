"""C18: underdamped Langevin solvers converge at their order for any friction and step."""
import zlib

import numpy as np

PROPERTY = "C18"
RULE = ("one evaluation = one real Langevin step or solve; distinct = (solver, friction/damping structure, step sequence, switching threshold, seed); "
        "non-trivial = all; events: steps compared with the documented step using exact coefficients, path errors against a fine reference solution")
ASSUMPTIONS = ["the documented steps are those of the cited papers with coefficients evaluated exactly (extended precision)",
               "allowance for the small-step expansion = the exact truncation error of a fifth order expansion in the step size, per coefficient",
               "strong orders estimated from sampled paths with a margin",
               "forward in time only"]
MIN_EVENTS = {"single_steps": 3000, "solve_steps": 900, "adaptive_steps": 250, "path_errors": 1500, "taylor_steps": 800, "direct_steps": 800,
              "rejected": 5, "jumps": 4}
LD = np.longdouble
SOLVERS = ("ALIGN", "ShOULD", "QUICSORT")
SQ3 = np.sqrt(LD(3))


def _rng(mon, *k):
    return np.random.default_rng(zlib.crc32(repr((mon.seed,) + k).encode()))


# ---------------------------------------------------------------- exact coefficients
def _fact(n):
    f = LD(1)
    for i in range(2, n + 1):
        f = f * i
    return f


def _series(cf, start, a, upto=None):
    """sum_{k>=0} cf(start+k) a^k."""
    out = np.zeros_like(a)
    n = 45 if upto is None else upto + 1
    for k in reversed(range(n)):
        out = out * a + cf(start + k)
    return out


def _sg(n):
    return LD(-1 if n % 2 else 1)


def e0(a, trunc=False):      # exp(-a)
    return _series(lambda n: _sg(n) / _fact(n), 0, a, 5) if trunc else np.exp(-a)


def phi1(a, up=None):        # (1-exp(-a))/a
    s = _series(lambda n: -_sg(n) / _fact(n), 1, a, up)
    return s if up is not None else np.where(a < 2, _series(lambda n: -_sg(n) / _fact(n), 1, np.minimum(a, 2)), (1 - np.exp(-a)) / np.where(a == 0, 1, a))


def phi2(a, up=None):        # (exp(-a)+a-1)/a^2
    cf = lambda n: _sg(n) / _fact(n)
    if up is not None:
        return _series(cf, 2, a, up)
    aa = np.where(a == 0, 1, a)
    return np.where(a < 2, _series(cf, 2, np.minimum(a, 2)), (np.exp(-a) + a - 1) / aa ** 2)


def chh(a, up=None):         # 6 (exp(-a)(a+2)+a-2)/a^3
    cf = lambda n: 6 * _sg(n) * (2 - n) / _fact(n)
    if up is not None:
        return _series(cf, 3, a, up)
    aa = np.where(a == 0, 1, a)
    return np.where(a < 2, _series(cf, 3, np.minimum(a, 2)), 6 * (np.exp(-a) * (a + 2) + a - 2) / aa ** 3)


def ckk(a, up=None):         # 60 (exp(-a)(a^2+6a+12) - a^2+6a-12)/a^4
    cf = lambda n: 60 * _sg(n) * (n - 3) * (n - 4) / _fact(n)
    if up is not None:       # leading coefficient (n=4) is zero
        return _series(cf, 4, a, up)
    aa = np.where(a == 0, 1, a)
    return np.where(a < 2, _series(cf, 4, np.minimum(a, 2)), 60 * (np.exp(-a) * (a * a + 6 * a + 12) - a * a + 6 * a - 12) / aa ** 4)


def coeffs(kind, h, c, trunc=False):
    """All coefficients (without g=gamma) as arrays; truncated to fifth order in h when asked."""
    a = c * h
    u4, u5 = (4, 5) if trunc else (None, None)
    if kind == "ALIGN":
        return dict(beta=e0(a, trunc), a1=h * phi1(a, u4), b1=h * phi2(a, u4), aa=phi1(a, u5), chh=h * chh(a, u4))
    if kind == "ShOULD":
        return dict(bh=e0(a / 2, trunc), ah=h / 2 * phi1(a / 2, u4), bb=h / 4 * phi2(a / 2, u4), beta=e0(a, trunc), a1=h * phi1(a, u4),
                    b1=h * phi2(a, u4), aa=phi1(a, u5), chh=h * chh(a, u4), ckk=h * ckk(a, u4))
    l, r = LD(.5) - SQ3 / 6, LD(.5) + SQ3 / 6
    out = dict(a3=h / 3 * phi1(a / 3, u4), adh=phi1(a, u5))
    for n, s in (("l", l), ("r", r), ("1", LD(1))):
        out["e" + n] = e0(a * s, trunc)
        out["a" + n] = h * s * phi1(a * s, u4)
        out["b" + n] = h * s * s * phi2(a * s, u4)
    return out


def ref_step(kind, C, h, g, u, W, H, K, x, v, f):
    """The documented step; f acts on the flat last axis."""
    rho = np.sqrt(2 * g * u)
    if kind == "ALIGN":
        f0 = f(x)
        x1 = x + C["a1"] * v - C["b1"] * u * h * f0 + rho * (C["b1"] * W + C["chh"] * H)
        f1 = f(x1)
        v1 = C["beta"] * v - u * ((C["a1"] - C["b1"]) * f0 + C["b1"] * f1) + rho * (C["aa"] * W - g * C["chh"] * H)
        return x1, v1
    if kind == "ShOULD":
        f0 = f(x)
        vs = v + rho * (H + 6 * K)
        xm = x + C["ah"] * vs + C["bb"] * (-u * h * f0 + rho * (W - 12 * K))
        f1 = f(xm)
        nz = C["chh"] * H + C["ckk"] * K
        x1 = x + C["a1"] * v - u * h * C["b1"] * (f0 / 3 + 2 * f1 / 3) + rho * (C["b1"] * W + nz)
        f2 = f(x1)
        v1 = C["beta"] * v - u * h * (C["beta"] / 6 * f0 + 2 * C["bh"] / 3 * f1 + f2 / 6) + rho * (C["aa"] * W - g * nz)
        return x1, v1
    z = rho * (W - 12 * K)
    vs = v + rho * (H + 6 * K)
    f1 = f(x + C["al"] * vs + C["bl"] * z) * u * h
    f2 = f(x + C["ar"] * vs + C["br"] * z - C["a3"] * f1) * u * h
    x1 = x + C["a1"] * vs + C["b1"] * z - (C["ar"] * f1 + C["al"] * f2) / 2
    v1 = C["e1"] * vs - (C["er"] * f1 + C["el"] * f2) / 2 + C["adh"] * z - rho * (H - 6 * K)
    return x1, v1


def ref_and_tol(kind, h, g, u, W, H, K, x, v, f, thr, eps):
    """Exact documented step and the allowance: expansion error where h*gamma < thr, rounding of the direct formulas elsewhere."""
    h, g, u, W, H, K, x, v = (np.asarray(q, dtype=LD) for q in (h, g, u, W, H, K, x, v))
    C = coeffs(kind, h, g)
    X, V = ref_step(kind, C, h, g, u, W, H, K, x, v, f)
    T = coeffs(kind, h, g, True)
    a = h * g
    tay = a < thr * (1 + 1e-6)
    rho = np.sqrt(2 * g * u)
    tx, tv = np.zeros_like(X), np.zeros_like(V)
    sx = abs(x) + h * (abs(v) + rho * (abs(W) + abs(H) + abs(K))) + abs(X) + u * h * h * (abs(f(x)) + abs(f(X)))
    sv = abs(v) + rho * (abs(W) + 2 * abs(H) + 12 * abs(K)) + abs(V) + u * h * (abs(f(x)) + abs(f(X)))
    for k in C:
        # perturb one coefficient of one component at a time (components couple through f)
        dT = np.where(tay, T[k] - C[k], 0)
        cond = {"b1": 4 / a ** 2, "bb": 16 / a ** 2, "bl": 8 / a ** 2, "br": 8 / a ** 2, "chh": 40 / a ** 3, "ckk": 2000 / a ** 4}.get(k, 4 / a)
        if k in ("beta", "bh", "e1", "el", "er"):
            scale, cond = 1, 4
        elif k in ("aa", "adh"):
            scale = 1
        else:
            scale = h
        dD = np.where(tay, 0, eps * np.maximum(cond, 4) * scale)
        d = abs(dT) * LD(1.1) + dD
        for s in (1, -1):
            C2 = dict(C)
            C2[k] = C[k] + s * d
            x2, v2 = ref_step(kind, C2, h, g, u, W, H, K, x, v, f)
            tx = tx + abs(x2 - X)
            tv = tv + abs(v2 - V)
        # different components may be perturbed with different signs: allow for the coupling through f
    cx = tx.sum(-1, keepdims=True)
    cv = tv.sum(-1, keepdims=True)
    lip = 3.0
    tx = tx + u * h * h * lip * cx
    tv = tv + u * h * lip * cx + 0 * cv
    mx = sx.max(-1, keepdims=True)
    tx = tx + 64 * eps * (sx + u * h * h * lip * mx)
    tv = tv + 64 * eps * (sv + u * h * lip * mx)
    return X, V, tx, tv, tay


# ---------------------------------------------------------------- problems
# position: flat (5,) or tree {"a": (3,), "b": (1, 2)}; the potential couples the components
def pot(xp, kind, B):
    if kind == "zero":
        return lambda x: 0 * x
    if kind == "sin":
        return lambda x: xp.sin(x @ B) @ B.T + 0.3 * x
    return lambda x: x @ B @ B.T + xp.tanh(x)


def potB(rng, d):
    B = rng.normal(size=(d, d))
    return B / np.linalg.norm(B, 2)


D = 5


def pack(z):
    import jax.numpy as jnp
    return {"a": z[:3], "b": jnp.reshape(z[3:], (1, 2))}


def unpack(t):
    import jax.numpy as jnp
    return jnp.concatenate([t["a"], jnp.reshape(t["b"], (2,))])


STRUCT = ("scalar", "vector", "tree", "prefix", "vs")   # how gamma / u are given


def make(struct, g, u, f, bm_of, tree):
    """terms with gamma and u given in the named structure; g, u are flat (D,) (constant where the structure needs it)."""
    import diffrax as dfx
    if not tree:
        gg, uu = {"scalar": (g[0], u[0]), "vector": (g, u), "vs": (g, u[0])}[struct]
        gf = lambda x, args: f(x)
    else:
        gg, uu = {"scalar": (g[0], u[0]), "tree": (pack(g), pack(u)), "prefix": ({"a": g[0], "b": g[3]}, u[0])}[struct]
        gf = lambda x, args: pack(f(unpack(x)))
    return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(gg, uu, gf), dfx.UnderdampedLangevinDiffusionTerm(gg, uu, bm_of))


def expand(struct, tree, g, u):
    """The flat friction / damping actually meant by the structure."""
    g, u = np.array(g), np.array(u)
    if struct == "scalar":
        g[..., :] = g[..., :1]
        u[..., :] = u[..., :1]
    elif struct == "vs":
        u[..., :] = u[..., :1]
    elif struct == "prefix":
        g[..., :3] = g[..., :1]
        g[..., 3:] = g[..., 3:4]
        u[..., :] = u[..., :1]
    return g, u


def levy_cls(kind):
    import diffrax as dfx
    return dfx.SpaceTimeLevyArea if kind == "ALIGN" else dfx.SpaceTimeTimeLevyArea


def onepath():
    """A user-written Brownian path with given values over the whole step."""
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from typing import Any

    class One(dfx.AbstractBrownianPath):
        w: Any
        hh: Any
        kk: Any
        tree: Any = eqx.field(static=True)
        levy_area: Any = eqx.field(static=True)

        @property
        def t0(self):
            return None

        @property
        def t1(self):
            return None

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            s = pack if self.tree else (lambda z: z)
            W, H, K = s(self.w), s(self.hh), s(self.kk)
            if not use_levy:
                return W
            dt = jtu.tree_map(lambda _: jnp.asarray(t1 - t0), W)
            if self.levy_area is dfx.SpaceTimeLevyArea:
                return dfx.SpaceTimeLevyArea(dt=dt, W=W, H=H)
            return dfx.SpaceTimeTimeLevyArea(dt=dt, W=W, H=H, K=K)
    return One


def compare(mon, kind, what, got, ref, info):
    X, V, tx, tv, _ = ref
    gx, gv = got
    for nm, g, r, t in (("position", gx, X, tx), ("velocity", gv, V, tv)):
        e = np.abs(np.asarray(g, dtype=LD) - r)
        q = np.where(np.isfinite(e), e / np.maximum(t, LD(1e-300)), np.inf)
        i = np.unravel_index(np.argmax(q), q.shape)
        mon.le(float(q[i]), 1.0, f"{what} {nm}", solver=kind, index=[int(z) for z in i], error=float(e[i]), allowed=float(t[i]), **info)


# ---------------------------------------------------------------- tasks
def single(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    kind, struct, tree, potn, thr = p["solver"], p["struct"], p["tree"], p["pot"], p["thr"]
    rng = _rng(mon, "single", *[str(p[k]) for k in sorted(p) if k != "_cost"])
    N = p["n"]
    f32 = p.get("f32", False)
    dt = np.float32 if f32 else np.float64
    lo, hi = {None: (-4, 1.5), 0.0: (-2.5, 1.5), 1e9: (-3, -.1)}[thr]
    if f32:
        lo, hi = (-4, 1.5) if thr is None else ((-.5, 1.5) if thr == 0.0 else (-2, -.1))
    scale = 10.0 ** rng.choice([-9, -3, 0, 0, 0, 3] if not f32 else [-2, 0, 0, 1], size=N)  # time unit
    al = 10.0 ** rng.uniform(lo, hi, size=(N, D))
    h = 10.0 ** rng.uniform(-1.5, .3, size=N) * scale
    g = al / h[:, None]
    g, _ = expand(struct, tree, g, np.ones((N, D)))
    u = 10.0 ** rng.uniform(-1, .3, size=(N, D)) / np.maximum(h[:, None] ** 2, scale[:, None] ** 2)
    _, u = expand(struct, tree, np.ones((N, D)), u)
    x = rng.normal(size=(N, D))
    v = rng.normal(size=(N, D)) / scale[:, None]
    W = rng.normal(size=(N, D)) * np.sqrt(h)[:, None]
    H = rng.normal(size=(N, D)) * np.sqrt(h / 12)[:, None]
    K = rng.normal(size=(N, D)) * np.sqrt(h / 720)[:, None]
    t0 = np.zeros(N)
    t0, h, g, u, x, v, W, H, K = (q.astype(dt) for q in (t0, h, g, u, x, v, W, H, K))
    B = potB(rng, D)
    cls = getattr(dfx, kind)
    solver = cls() if thr is None else cls(taylor_threshold=thr)
    One = onepath()
    fj = pot(jnp, potn, jnp.asarray(B, dtype=dt))

    def one(t0, h, g, u, x, v, W, H, K):
        bm = One(W, H, K, tree, levy_cls(kind))
        terms = make(struct, g, u, fj, bm, tree)
        y = (pack(x), pack(v)) if tree else (x, v)
        st = solver.init(terms, t0, t0 + h, y, None)
        (x1, v1), err, _, _, _ = solver.step(terms, t0, t0 + h, y, None, st, False)
        e = err[1] if err is not None else v1
        if tree:
            x1, v1, e = unpack(x1), unpack(v1), unpack(e)
        return x1, v1, e
    run = jax.jit(jax.vmap(one)) if p["mode"] == "vmap" else jax.jit(lambda *a: jax.lax.map(lambda q: one(*q), a))
    gx, gv, ge = (np.asarray(q) for q in run(t0, h, g, u, x, v, W, H, K))
    B_ = B.astype(LD)
    fn = pot(np, potn, B_)
    eff = .1 if thr is None else thr
    eps = LD(6e-8 if f32 else 1.2e-16)
    ref = ref_and_tol(kind, h[:, None], g, u, W, H, K, x, v, fn, eff, eps)
    mon.event("single_steps", N)
    mon.event("taylor_steps", int(ref[4].all(-1).sum()))
    mon.event("direct_steps", int((~ref[4]).all(-1).sum()))
    mon.event("mixed_steps", int((ref[4].any(-1) & ~ref[4].all(-1)).sum()))
    mon.case(("single", kind, struct, tree, potn, thr, p["mode"], f32))
    compare(mon, kind, "single step", (gx, gv), ref, dict(struct=struct, tree=tree, potential=potn, threshold=str(thr), mode=p["mode"], f32=f32,
                                                          h_first=float(h[0])))
    if kind == "ALIGN" and not f32:
        # documented error estimate: the change from using the end-point gradient
        C = coeffs(kind, np.asarray(h, LD)[:, None], np.asarray(g, LD))
        exp = -np.asarray(u, LD) * C["b1"] * (fn(ref[0]) - fn(np.asarray(x, LD)))
        tol = 3 * np.asarray(u, LD) * np.asarray(h, LD)[:, None] * (ref[2].sum(-1, keepdims=True) + 1e-9 * abs(fn(ref[0]) - fn(np.asarray(x, LD)))) + 1e-9 * abs(exp)
        tol = tol + abs(coeffs(kind, np.asarray(h, LD)[:, None], np.asarray(g, LD), True)["b1"] - C["b1"]) * ref[4] * abs(np.asarray(u, LD) * (fn(ref[0]) - fn(np.asarray(x, LD)))) * 1.1
        tol = tol + np.asarray(u, LD) * C["b1"] * 1e-13 * (abs(fn(ref[0])) + abs(fn(np.asarray(x, LD))))
        e = abs(np.asarray(ge, LD) - exp)
        q = np.where(np.isfinite(e), e / np.maximum(tol, LD(1e-300)), np.inf)
        i = np.unravel_index(np.argmax(q), q.shape)
        mon.le(float(q[i]), 1.0, "ALIGN error estimate", solver=kind, index=[int(z) for z in i], error=float(e[i]), allowed=float(tol[i]), struct=struct)


CELLS = 1 << 12


def grids(rng, kind, S):
    """S+1 increasing table indices in [0, CELLS]."""
    if kind == "random":
        return np.sort(np.concatenate([[0, CELLS], rng.choice(np.arange(1, CELLS), S - 1, replace=False)]))
    if kind == "constant":
        return np.arange(S + 1) * (CELLS // S)
    if kind == "alternating":
        k = CELLS // (2 * S)
        st = np.where(np.arange(S) % 2 == 0, k, 3 * k)
        return np.concatenate([[0], np.cumsum(st)])
    if kind == "repeats":        # a, a, b, b, a, ...
        k = CELLS // (4 * S)
        st = k * rng.choice([1, 2, 4], size=(S + 1) // 2).repeat(2)[:S]
        return np.concatenate([[0], np.cumsum(st)])
    if kind == "growing":
        st = np.unique(np.round(np.geomspace(1, CELLS, S + 1)).astype(int))
        while len(st) < S + 1:
            st = np.unique(np.concatenate([st, rng.integers(1, CELLS, size=1)]))
        st[0] = 0
        return st
    raise ValueError(kind)


def solve(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    from dv import bm as bmm
    kind, struct, tree = p["solver"], p["struct"], p["tree"]
    rng = _rng(mon, "solve", *[str(p[k]) for k in sorted(p) if k != "_cost"])
    S, N = p["S"], p["n"]
    B = potB(rng, D)
    fj, fn = pot(jnp, "mix", jnp.asarray(B)), pot(np, "mix", B.astype(LD))
    cls = getattr(dfx, kind)
    solver = dfx.HalfSolver(cls()) if p.get("half") else cls()
    s = (lambda z: pack(z)) if tree else (lambda z: z)

    def one(tab, ts, d, g, u, x, v):
        path = bmm.TabPath(tab, jnp.asarray(0.0), d, s, levy_cls(kind))
        terms = make(struct, g, u, fj, path, tree)
        y = (pack(x), pack(v)) if tree else (x, v)
        sol = dfx.diffeqsolve(terms, solver, ts[0], ts[-1], None, y, stepsize_controller=dfx.StepTo(ts=ts), saveat=dfx.SaveAt(t0=True, steps=True),
                              max_steps=S, adjoint=dfx.ForwardMode())
        xs, vs = sol.ys
        if tree:
            xs, vs = jax.vmap(unpack)(xs), jax.vmap(unpack)(vs)
        return sol.ts, xs, vs, sol.stats["num_steps"]
    run = jax.jit(jax.vmap(one)) if p["mode"] == "vmap" else jax.jit(one)
    cases = []
    for i in range(N):
        gr = p["grids"][i % len(p["grids"])]
        unit = (1.0, 1e-13, 1.0, 1e-6, 1e4)[(i + i // 5) % 5]
        idx = grids(rng, gr, S)
        if p.get("half"):
            idx = idx * 2
        T = unit
        d = T / (CELLS * (2 if p.get("half") else 1))
        ts = idx * d
        if gr == "constant" and i % 2 and not p.get("half"):
            # steps that differ by far more than rounding, but little
            ts = ts * (1 + np.concatenate([[0], rng.uniform(-1, 1, S - 1), [0]]) * 1e-6)
        g = 10.0 ** rng.uniform(-1, 2.0, size=D) / T
        u = 10.0 ** rng.uniform(-1, 1, size=D) / T ** 2
        g, u = expand(struct, tree, g, u)
        tab = bmm.table(rng, CELLS * (2 if p.get("half") else 1), 0.0, T, D)
        cases.append((tab, ts, np.asarray(d), g, u, rng.normal(size=D), rng.normal(size=D) / T, idx, unit, gr))
    if p["mode"] == "vmap":
        outs = run(*[np.stack([c[k] for c in cases]) for k in range(7)])
        outs = [[np.asarray(o[i]) for o in outs] for i in range(N)]
    else:
        outs = [[np.asarray(o) for o in run(*c[:7])] for c in cases]
    for c, (ts, xs, vs, ns) in zip(cases, outs):
        tab, tg, d, g, u, x, v, idx, unit, gr = c
        info = dict(struct=struct, tree=tree, grid=gr, unit=unit, mode=p["mode"], half=bool(p.get("half")))
        mon.case(("solve", kind, struct, tree, gr, unit, p["mode"], bool(p.get("half"))))
        ok = mon.ok(np.array_equal(ts, tg), "the steps taken are those requested", solver=kind, **info)
        if not ok and not np.all(np.isfinite(ts)):
            continue
        h = np.diff(tg)
        W, H, K = (np.stack(q) for q in zip(*[bmm.whk(np, tab, 0.0, float(d), int(i), int(j)) for i, j in zip(idx[:-1], idx[1:])]))
        if p.get("half"):
            mid = (idx[:-1] + idx[1:]) // 2
            Wa = [np.stack(q) for q in zip(*[bmm.whk(np, tab, 0.0, float(d), int(i), int(j)) for i, j in zip(idx[:-1], mid)])]
            Wb = [np.stack(q) for q in zip(*[bmm.whk(np, tab, 0.0, float(d), int(i), int(j)) for i, j in zip(mid, idx[1:])])]
            r1 = ref_and_tol(kind, h[:, None] / 2, g, u, *Wa, xs[:-1], vs[:-1], fn, .1, LD(1.2e-16))
            r2 = ref_and_tol(kind, h[:, None] / 2, g, u, *Wb, r1[0], r1[1], fn, .1, LD(1.2e-16))
            hh = LD(1) * h[:, None]
            tx = r2[2] + 3 * (r1[2] + hh * r1[3]) + 3 * u * hh ** 2 * (r1[2] + hh * r1[3]).sum(-1, keepdims=True)
            tv = r2[3] + 3 * r1[3] + 3 * u * hh * (r1[2] + hh * r1[3]).sum(-1, keepdims=True)
            ref = (r2[0], r2[1], tx, tv, r2[4])
            mon.event("half_steps", len(h))
        else:
            ref = ref_and_tol(kind, h[:, None], g, u, W, H, K, xs[:-1], vs[:-1], fn, .1, LD(1.2e-16))
        # cached coefficients may correspond to a step equal up to a relative 1e-10; the table's own cumulative sums round
        hh = LD(1) * h[:, None]
        rho = np.sqrt(2 * g * u)
        tabn = 1e-9 * np.sqrt(hh)
        tx = ref[2] + 1e-9 * (abs(ref[0]) + hh * (abs(vs[:-1]) + rho * abs(W))) + hh * rho * tabn
        tv = ref[3] + 1e-9 * (abs(ref[1]) + abs(vs[:-1]) + rho * abs(W)) + rho * tabn * 12
        tx, tv = tx + 1e-9 * u * hh ** 2 * 3, tv + 1e-9 * u * hh * 3 + u * hh * 3 * tx.sum(-1, keepdims=True)
        mon.event("solve_steps", len(h))
        compare(mon, kind, "step of a solve", (xs[1:], vs[1:]), (ref[0], ref[1], tx, tv, None), info)


MODES = np.pi * (np.arange(160) + .5)


def kl(xp, A, t):
    """A smoothed Brownian path (its Karhunen-Loeve series): W, int W, int r W from 0 to t; A (modes, D)."""
    w = xp.asarray(MODES)
    s, c = xp.sin(w * t), xp.cos(w * t)
    return s @ A, ((1 - c) / w) @ A, (s / w ** 2 - t * c / w) @ A


def kl_whk(xp, A, a, b):
    h = b - a
    (wa, ia, ja), (wb, ib, jb) = kl(xp, A, a), kl(xp, A, b)
    W = wb - wa
    I1 = ib - ia - h * wa
    I2 = jb - ja - wa * (b * b - a * a) / 2
    return W, I1 / h - W / 2, ((a + b) / 2 * I1 - I2) / (h * h) + W / 12


def klpath():
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from typing import Any

    class KL(dfx.AbstractBrownianPath):
        A: Any
        tree: Any = eqx.field(static=True)
        levy_area: Any = eqx.field(static=True)

        @property
        def t0(self):
            return None

        @property
        def t1(self):
            return None

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            s = pack if self.tree else (lambda z: z)
            if t1 is None:
                return s(kl(jnp, self.A, t0)[0])
            W, H, K = (s(z) for z in kl_whk(jnp, self.A, t0, t1))
            if not use_levy:
                return W
            dt = jtu.tree_map(lambda _: jnp.asarray(t1 - t0), W)
            if self.levy_area is dfx.SpaceTimeLevyArea:
                return dfx.SpaceTimeLevyArea(dt=dt, W=W, H=H)
            return dfx.SpaceTimeTimeLevyArea(dt=dt, W=W, H=H, K=K)
    return KL


def adaptive(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    kind, tree, struct = p["solver"], p["tree"], p["struct"]
    rng = _rng(mon, "adaptive", *[str(p[k]) for k in sorted(p) if k != "_cost"])
    B = potB(rng, D)
    fj, fn = pot(jnp, "mix", jnp.asarray(B)), pot(np, "mix", B.astype(LD))
    base = getattr(dfx, kind)()
    solver = base if kind == "ALIGN" else dfx.HalfSolver(base)
    half = kind != "ALIGN"
    s = pack if tree else (lambda z: z)
    MS = 400

    KL = klpath()

    def one(A, g, u, x, v, dt0, jumps, steps):
        path = KL(A, tree, levy_cls(kind))
        terms = make(struct, g, u, fj, path, tree)
        y = (pack(x), pack(v)) if tree else (x, v)
        ctrl = dfx.PIDController(rtol=0, atol=p["atol"], pcoeff=0.1, icoeff=0.4, dtmin=2e-4, factormin=0.3, factormax=3.0)
        if p["clip"]:
            ctrl = dfx.ClipStepSizeController(ctrl, jump_ts=jumps, step_ts=steps, store_rejected_steps=200)
        sol = dfx.diffeqsolve(terms, solver, 0.0, 1.0, dt0, y, stepsize_controller=ctrl, saveat=dfx.SaveAt(t0=True, steps=True), max_steps=MS,
                              adjoint=dfx.ForwardMode(), throw=False)
        xs, vs = sol.ys
        if tree:
            xs, vs = jax.vmap(unpack)(xs), jax.vmap(unpack)(vs)
        return sol.ts, xs, vs, sol.stats["num_accepted_steps"], sol.stats["num_rejected_steps"]
    run = jax.jit(one)
    for r in range(p["n"]):
        g = 10.0 ** rng.uniform(-.5, 1.2, size=D)
        u = 10.0 ** rng.uniform(0, 1.2, size=D)
        g, u = expand(struct, tree, g, u)
        x, v = rng.normal(size=D), rng.normal(size=D)
        jumps = np.sort(rng.uniform(.1, .9, size=2))
        A = rng.normal(size=(len(MODES), D)) * np.sqrt(2) / MODES[:, None]
        ts, xs, vs, na, nr = run(A, g, u, x, v, .25, jumps, np.sort(rng.uniform(.1, .9, size=2)))
        na, nr = int(na), int(nr)
        mon.event("rejected", nr)
        mon.event("adaptive_steps", na)
        if p["clip"]:
            mon.event("jumps", 2)
        info = dict(struct=struct, tree=tree, clip=p["clip"], rep=r, steps=na, rejected=nr)
        mon.case(("adaptive", kind, struct, tree, p["clip"], r))
        ts, xs, vs = (np.asarray(q)[:na + 1] for q in (ts, xs, vs))
        if not mon.ok(np.all(np.isfinite(ts)) and ts[-1] == 1.0, "the adaptive solve completed", solver=kind, **info):
            continue
        h = np.diff(ts)[:, None]
        md = ts[:-1] + np.diff(ts) / 2
        L, La, Lb = ([np.stack(q) for q in zip(*[kl_whk(np, A, a, b) for a, b in zip(l, r_)])] for l, r_ in ((ts[:-1], ts[1:]), (ts[:-1], md), (md, ts[1:])))
        hh = LD(1) * h
        z = np.zeros_like(L[0])
        args = (xs[:-1], vs[:-1])
        if half:
            r1 = ref_and_tol(kind, h / 2, g, u, *La, *args, fn, .1, LD(1.2e-16))
            r2 = ref_and_tol(kind, h / 2, g, u, *Lb, r1[0], r1[1], fn, .1, LD(1.2e-16))
            tx = r2[2] + 3 * (r1[2] + hh * r1[3]) + 3 * u * hh ** 2 * (r1[2] + hh * r1[3]).sum(-1, keepdims=True)
            tv = r2[3] + 3 * r1[3] + 3 * u * hh * (r1[2] + hh * r1[3]).sum(-1, keepdims=True)
            X, V = r2[0], r2[1]
        else:
            X, V, tx, tv, _ = ref_and_tol(kind, h, g, u, L[0], L[1], z, *args, fn, .1, LD(1.2e-16))
        rho = np.sqrt(2 * g * u)
        # rounding of the path's own areas
        n = 2e-15 / np.minimum(hh, 1) ** 2 + 1e-12
        tx, tv = tx + hh * rho * n + 1e-9, tv + 12 * rho * n + 1e-9
        tv = tv + 3 * u * hh * tx.sum(-1, keepdims=True)
        compare(mon, kind, "accepted adaptive step", (xs[1:], vs[1:]), (X, V, tx, tv, None), info)


def reference(tab, cells, T, g, u, x, v, f, sub=4):
    """RK4 (in substeps: the cubic is rough on the scale of a cell) over every cell of the table, driven by the cubic with the cell's W, H, K; tab (3, cells+1, ...)."""
    from dv import bm as bmm
    d = T / cells
    rho = np.sqrt(2 * g * u)
    for i in range(cells):
        W, H, K = bmm.whk(np, tab, 0.0, d, i, i + 1)

        def dp(s):   # derivative of W s + 6 H s(1-s) + 60 K s(1-s)(1-2s) ... scaled to the cell
            return (W + 6 * H * (1 - 2 * s) + 60 * K * (1 - 6 * s + 6 * s * s)) / d

        def F(s, x, v):
            return v, -g * v - u * f(x) + rho * dp(s)
        e = d / sub
        for q in range(sub):
            s0 = q / sub
            k1 = F(s0, x, v)
            k2 = F(s0 + .5 / sub, x + e / 2 * k1[0], v + e / 2 * k1[1])
            k3 = F(s0 + .5 / sub, x + e / 2 * k2[0], v + e / 2 * k2[1])
            k4 = F(s0 + 1 / sub, x + e * k3[0], v + e * k3[1])
            x = x + e / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0])
            v = v + e / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
    return x, v


def strong(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    from dv import bm as bmm
    kind, struct, tree, potn, gr = p["solver"], p["struct"], p["tree"], p["pot"], p["grid"]
    rng = _rng(mon, "strong", *[str(p[k]) for k in sorted(p) if k != "_cost"])
    M, cells, T = p["M"], 1 << 10, 1.0
    tabs = np.stack([bmm.table(rng, cells, 0.0, T, D) for _ in range(M)])       # (M, 3, cells+1, D)
    B = potB(rng, D)
    fj, fn = pot(jnp, potn, jnp.asarray(B)), pot(np, potn, B)
    g = 10.0 ** rng.uniform(-.6, .3, size=D) * p.get("gmul", 1.0)
    u = 10.0 ** rng.uniform(-.3, .5, size=D)
    g, u = expand(struct, tree, g, u)
    x, v = rng.normal(size=(M, D)), rng.normal(size=(M, D))
    rx, rv = reference(np.moveaxis(tabs, 0, 2), cells, T, g, u, x, v, fn)
    solver = getattr(dfx, kind)()
    s = pack if tree else (lambda z: z)
    NMAX = 64

    def one(tab, ts, g, u, x, v):
        path = bmm.TabPath(tab, jnp.asarray(0.0), jnp.asarray(T / cells), s, levy_cls(kind))
        terms = make(struct, g, u, fj, path, tree)
        y = (pack(x), pack(v)) if tree else (x, v)
        sol = dfx.diffeqsolve(terms, solver, ts[0], ts[-1], None, y, stepsize_controller=dfx.StepTo(ts=ts), max_steps=NMAX, adjoint=dfx.ForwardMode())
        x1, v1 = sol.ys
        return (unpack(jax.tree_util.tree_map(lambda q: q[0], x1)), unpack(jax.tree_util.tree_map(lambda q: q[0], v1))) if tree else (x1[0], v1[0])
    run = jax.jit(jax.vmap(one, in_axes=(0, None, None, None, 0, 0)))
    ns, errs = (8, 16, 32, 64), []
    for n in ns:
        k = cells // n
        if gr == "constant":
            idx = np.arange(n + 1) * k
        else:
            st = np.array([k // 2, 3 * k // 2, k, k] * (n // 4))
            idx = np.concatenate([[0], np.cumsum(st)])
        ts = idx * (T / cells)
        gx, gv = (np.asarray(q) for q in run(tabs, ts, g, u, x, v))
        errs.append(float(np.sqrt(np.mean((gx - rx) ** 2 + (gv - rv) ** 2))))
        mon.event("path_errors", M)
    mon.case(("strong", kind, struct, tree, potn, gr))
    order = {"ALIGN": 2, "ShOULD": 3, "QUICSORT": 3}[kind]
    sl = np.log2(np.array(errs[:-1]) / np.array(errs[1:]))
    fit = float(-np.polyfit(np.log2(ns), np.log2(errs), 1)[0])
    info = dict(struct=struct, tree=tree, potential=potn, grid=gr, errors=[float(f"{e:.3g}") for e in errs])
    if errs[-1] > 1e-11:
        mon.le(order - p.get("margin", .45), fit, "strong convergence order at least the documented one", solver=kind, slope=fit, **info)
        mon.le(order - .7, float(sl[-1]), "strong convergence order (last refinement)", solver=kind, slope=float(sl[-1]), **info)
    mon.le(errs[-1], p.get("cap", 2e-3), "close to the solution", solver=kind, **info)


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    S1 = [("scalar", False), ("vector", False), ("vs", False), ("tree", True), ("prefix", True), ("scalar", True)]
    n = 0
    for k in SOLVERS:
        for si, (st, tr) in enumerate(S1):
            for thr in (None, 0.0, 1e9):
                for mode in ("vmap", "map"):
                    n += 1
                    if not th and (n + si + SOLVERS.index(k) + (n - 1) // 2 + seed) % 2:
                        continue
                    pt = ("mix", "sin", "zero")[(n + seed) % 2 if not th else n % 3]
                    out.append((f"single-{k}-{st}{int(tr)}-{thr}-{mode}", dict(solver=k, struct=st, tree=tr, pot=pt, thr=thr, mode=mode, n=400 if not th else 3000)))
        for thr in (None,) if not th else (None, 0.0, 1e9):
            out.append((f"single32-{k}-{thr}", dict(solver=k, struct="vector", tree=False, pot="mix", thr=thr, mode="vmap", n=300, f32=True)))
        G = ["random", "constant", "alternating", "repeats", "growing"]
        out.append((f"solve-{k}-vec", dict(solver=k, struct="vector", tree=False, S=24, n=10 if not th else 60, grids=G, mode="plain", _cost=8)))
        out.append((f"solve-{k}-tree-vmap", dict(solver=k, struct=("tree", "prefix")[seed % 2], tree=True, S=16, n=10 if not th else 100, grids=G, mode="vmap", _cost=8)))
        out.append((f"solve-{k}-half", dict(solver=k, struct="vector", tree=False, S=12, n=5 if not th else 30, grids=["random", "alternating"], mode="plain", half=True, _cost=8)))
        if th:
            out.append((f"solve-{k}-tree-plain", dict(solver=k, struct="tree", tree=True, S=24, n=60, grids=G, mode="plain", _cost=8)))
            out.append((f"solve-{k}-scalar-vmap", dict(solver=k, struct="scalar", tree=False, S=24, n=60, grids=G, mode="vmap", _cost=8)))
        atol = {"ALIGN": 2e-2, "ShOULD": 3e-3, "QUICSORT": 3e-3}[k]
        out.append((f"adaptive-{k}", dict(solver=k, struct="vector", tree=False, atol=atol, clip=bool(seed % 2), n=6 if not th else 60, _cost=12)))
        out.append((f"adaptive-{k}-tree", dict(solver=k, struct="prefix", tree=True, atol=atol, clip=not seed % 2, n=6 if not th else 60, _cost=12)))
        out.append((f"strong-{k}-vec", dict(solver=k, struct="vector", tree=False, pot="mix", grid="uneven", M=100 if not th else 400, _cost=6)))
        out.append((f"strong-{k}-tree", dict(solver=k, struct="prefix", tree=True, pot="sin", grid="constant", M=100 if not th else 400, _cost=6)))
        if th:
            out.append((f"strong-{k}-scalar", dict(solver=k, struct="scalar", tree=False, pot="sin", grid="uneven", M=400, _cost=6)))
            out.append((f"strong-{k}-small", dict(solver=k, struct="vector", tree=False, pot="mix", grid="uneven", M=400, gmul=.05, _cost=6)))
    return out


def run(name, p, mon):
    fam = name.split("-")[0]
    {"single": single, "single32": single, "solve": solve, "adaptive": adaptive, "strong": strong}[fam](p, mon)
