"""C08: Brownian paths are fixed, additive and have the exact joint law."""
import numpy as np

PROPERTY = "C08"
RULE = ("one evaluation = one real query of a Brownian path (for one random key); distinct = (path, levy area, shape, interval, tolerance, query set); "
        "non-trivial = queries with s < t strictly inside the path's interval; events: keys sampled, additivity identities, moments tested")
ASSUMPTIONS = ["JAX's normal generator is taken as normal", "law tested by z-tests at 6-8 sigma on 8000-60000 keys (false alarm below 1e-5 per run; seeds are fixed)",
               "law claimed for queries at least two tolerances apart"]
MIN_EVENTS = {"samples": 300000, "moments": 3000, "identities": 1500, "misuse": 10, "solves": 8}

LEVY = {"W": "BrownianIncrement", "H": "SpaceTimeLevyArea", "K": "SpaceTimeTimeLevyArea"}
SHAPES = ["scalar", "vec", "tree", "f32"]


def mk_shape(kind):
    import jax
    import jax.numpy as jnp
    f64, f32 = jnp.float64, jnp.float32
    S = jax.ShapeDtypeStruct
    return {"scalar": (), "vec": (2,), "mat": (2, 2), "tree": {"a": S((2,), f64), "b": (S((), f64), S((1, 1), f64))}, "f32": S((2,), f32),
            "mixed": [S((), f32), S((2,), f64)]}[kind]


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 4
    for r in range(rep):
        for lv in "WHK":
            for sh, span, tol in [("scalar", (0.0, 1.0), 2.0 ** -6), ("vec", (-0.7, 2.3), 0.11), ("tree", (5.0, 5.5), 3e-3), ("f32", (0.0, 10.0), 0.3),
                                  ("mixed", (-1.0, 3.0), 1.0), ("vec", (0.0, 1.0), 2.0)]:
                out.append((f"law-{lv}-{sh}-{tol:g}-{r}", dict(kind="law", levy=lv, shape=sh, span=span, tol=tol, rep=r, _cost={"W": 2, "H": 3, "K": 8}[lv])))
            for tol in ((0.5, 0.125) if lv == "K" or (lv == "H" and tier != "quick") else (0.5,)):
                out.append((f"big-{lv}-{tol:g}-{r}", dict(kind="big", levy=lv, tol=tol, rep=r, _cost=6)))
            shapes = ("scalar", "tree", "f32", "mat", "mixed")
            if tier == "quick":
                shapes = {"W": ("scalar", "tree", "mixed"), "H": ("tree", "mat"), "K": ("scalar", "tree", "f32")}[lv]
            for sh in shapes:
                out.append((f"fixed-{lv}-{sh}-{r}", dict(kind="fixed", levy=lv, shape=sh, rep=r, _cost=12 if sh == "tree" else 6)))
            out.append((f"unsafe-{lv}-{r}", dict(kind="unsafe", levy=lv, rep=r)))
        for lv in "HK":
            out.append((f"quad-{lv}-{r}", dict(kind="quad", levy=lv, rep=r, _cost=4)))
        out.append((f"misuse-{r}", dict(kind="misuse", rep=r)))
        for c in ("vbt", "unsafe"):
            out.append((f"solve-{c}-{r}", dict(kind="solve", path=c, rep=r, _cost=4)))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def run(name, p, mon):
    {"law": run_law, "big": run_big, "fixed": run_fixed, "unsafe": run_unsafe, "quad": run_quad, "misuse": run_misuse, "solve": run_solve}[p["kind"]](name, p, mon)


# ---------------------------------------------------------------- law
def flat_inc(inc):
    import jax.numpy as jnp
    from dv import rec
    out = {"W": rec.flat(inc.W).astype(jnp.float64)}
    for k in "HK":
        if hasattr(inc, k):
            out[k] = rec.flat(getattr(inc, k)).astype(jnp.float64)
    return out


def gauss_test(mon, X, what, zmax=6.0, first_two=False):
    """X: (N, m); columns must be independent standard normals."""
    N, m = X.shape
    from scipy import special
    mon.ok(np.all(np.isfinite(X)), what + ": finite")
    z = X.mean(0) * np.sqrt(N)
    mon.le(np.abs(z).max(), zmax, what + ": mean zero", worst=int(np.abs(z).argmax()))
    C = X.T @ X / N
    Z = (C - np.eye(m)) * np.sqrt(N) / np.sqrt(1 + np.eye(m))
    mon.le(np.abs(Z).max(), zmax, what + ": covariance is that of Brownian motion", worst=[int(i) for i in np.unravel_index(np.abs(Z).argmax(), Z.shape)],
           got=float(C.ravel()[np.abs(Z).argmax()]))
    mon.event("moments", m * (m + 3) // 2)
    if first_two:
        return
    z4 = (np.mean(X ** 4, 0) - 3) * np.sqrt(N / 96)
    mon.le(np.abs(z4).max(), 10.0, what + ": normal kurtosis")
    z3 = np.mean(X ** 3, 0) * np.sqrt(N / 15)
    mon.le(np.abs(z3).max(), 8.0, what + ": normal skewness")
    Q = X ** 2 - 1
    S = Q.T @ Q / N
    np.fill_diagonal(S, 0)
    mon.le(np.abs(S).max() * np.sqrt(N) / 2, 10.0, what + ": squares uncorrelated")
    D = 0.0
    grid = (np.arange(N) + 1) / N
    for j in range(m):
        u = special.ndtr(np.sort(X[:, j]))
        D = max(D, np.abs(u - grid).max(), np.abs(u - grid + 1 / N).max())
    mon.le(D * np.sqrt(N), 3.2, what + ": normally distributed")
    mon.event("moments", 3 * m + m * (m - 1) // 2)


def run_law(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    a, b = p["span"]
    tol = p["tol"]
    lv = getattr(dfx, LEVY[p["levy"]])
    shape = mk_shape(p["shape"])
    N = {"W": 20000, "H": 15000, "K": 6000}[p["levy"]] * (1 if mon.tier == "quick" else 4)

    @eqx.filter_jit
    def go(keys, s, t):
        def one(k):
            path = dfx.VirtualBrownianTree(a, b, tol, shape, k, levy_area=lv)
            return jax.vmap(lambda s, t: flat_inc(path.evaluate(s, t, use_levy=True)))(s, t)
        return jax.vmap(one)(keys)

    rng = _rng(mon, name)
    L = b - a
    cell = 2.0 ** -max(0, np.ceil(np.log2(L / tol))) * L      # resolution of the tree
    if tol >= L:
        sets = [[a, b]] * 1 + [[a, a + L * rng.uniform(.1, .9)], [a + L * rng.uniform(.1, .9), b], [a, a + rng.uniform(.2, .8) * L, b]]
    else:
        sets = []
        for c in range(3):
            pts = [a + L * rng.random() if c else a]
            while len(pts) < 5:
                # at most one query point inside each cell, some exactly on the dyadic nodes
                q = a + L * rng.random() if rng.random() < .7 else a + L * rng.integers(0, 9) / 8
                if min(abs(q - x) for x in pts) > max(cell, tol) * 1.01:
                    pts.append(q)
                elif L / max(cell, tol) < 12:
                    break
            if len(pts) < 2:
                pts = [a, b]
            sets.append(sorted(pts))
        # a short interval in the middle, and one next to an end
        m = a + L * rng.uniform(.3, .6)
        if 2.2 * max(cell, tol) < .3 * L:
            sets.append([a, m, m + 2.1 * max(cell, tol), b])
    for ci, pts in enumerate(sets):
        nq = len(pts) - 1
        s, t = np.array(pts[:-1]), np.array(pts[1:])
        keys = jax.random.split(jax.random.key(int(rng.integers(2 ** 31))), N)
        pad = lambda x: jnp.asarray(np.concatenate([x, np.full(4 - nq, x[-1])]))
        out = {k: np.asarray(v)[:, :nq] for k, v in go(keys, pad(s), pad(t)).items()}
        mon.case((name, ci), points=pts)
        cols = []
        h = (t - s)[None, :, None]
        for k, v in {"W": 1.0, "H": 12.0, "K": 720.0}.items():
            if k in out:
                cols.append((out[k] / np.sqrt(h / v)).reshape(N, -1))
        X = np.concatenate(cols, 1)
        mon.event("samples", X.size)
        gauss_test(mon, X, "increments and areas over disjoint intervals")


def run_big(name, p, mon):
    """Few levels, many keys: small errors in one coefficient of the sampler."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    lv = getattr(dfx, LEVY[p["levy"]])
    rng = _rng(mon, name)
    N = 500000 if mon.tier == "quick" else 4000000
    a = float(rng.choice([0.0, -1.0, 3.0]))
    L = float(rng.choice([1.0, 2.5]))
    cells = np.arange(0, 1 + p["tol"], p["tol"])
    if p["tol"] < 0.5:
        cells = np.sort(rng.choice(len(cells) - 1, size=2, replace=False)) * p["tol"]
        pts = np.unique(np.concatenate([[0.0], cells, cells + p["tol"] * np.array([1.0, rng.uniform(.2, .8)]), [1.0]]))[:6]
    else:
        pts = np.array([0.0, rng.uniform(.1, .4), .5, rng.uniform(.6, .9), 1.0])
    pts = a + L * pts
    s, t = jnp.asarray(pts[:-1]), jnp.asarray(pts[1:])

    @eqx.filter_jit
    def go(keys):
        def one(k):
            path = dfx.VirtualBrownianTree(a, a + L, p["tol"] * L, (), k, levy_area=lv)
            return jax.vmap(lambda s, t: flat_inc(path.evaluate(s, t, use_levy=True)))(s, t)
        return jax.vmap(one)(keys)
    out = {k: np.asarray(v) for k, v in go(jax.random.split(jax.random.key(int(rng.integers(2 ** 31))), N)).items()}
    mon.case((name,), points=pts)
    h = np.diff(pts)[None, :, None]
    X = np.concatenate([(out[k] / np.sqrt(h / v)).reshape(N, -1) for k, v in {"W": 1.0, "H": 12.0, "K": 720.0}.items() if k in out], 1)
    mon.event("samples", X.size)
    gauss_test(mon, X, "increments and areas over disjoint intervals (many keys)", first_two=True)


# ---------------------------------------------------------------- one fixed path
def I12(h, W, H, K):
    """int W_{s,r} dr, int (r-s) W_{s,r} dr over the interval."""
    i1 = h * (H + W / 2)
    i2 = None if K is None else (h * h * H / 2 - h * h * K) + W * h * h / 3
    return i1, i2


def run_fixed(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from dv import rec
    lv = getattr(dfx, LEVY[p["levy"]])
    shape = mk_shape(p["shape"])
    rng = _rng(mon, name)
    eps = 2e-6 if p["shape"] in ("f32", "mixed") else 1e-14
    J = jnp.asarray
    mk = lambda key, q: dfx.VirtualBrownianTree(q[0], q[1], q[2], shape, key, levy_area=lv)
    evb = eqx.filter_jit(lambda key, q, s, t: jax.vmap(lambda s, t: flat_inc(mk(key, q).evaluate(s, t, use_levy=True)))(s, t))

    @eqx.filter_jit
    def misc(key, q, s, t):
        path = mk(key, q)
        inc = lambda s, t: flat_inc(path.evaluate(s, t, use_levy=True))
        return (inc(s, t), rec.flat(path.evaluate(s, t)), rec.flat(path.evaluate(s)), flat_inc(path.evaluate(t, use_levy=True)), inc(path.t0, t), inc(path.t0, path.t0))
    NQ = 12
    for cfg in range(3 if mon.tier == "quick" else 8):
        a = float(rng.uniform(-3, 3))
        L = float(np.exp(rng.uniform(-2, 3)))
        b = a + L
        tol = L * float(rng.choice([.7, .13, 2.0 ** -5, 1e-3, 1e-5]))
        key = jax.random.key(int(rng.integers(2 ** 31)))
        q_ = J([a, b, tol])
        a = float(q_[0])
        # random points, points within one cell of another, dyadic nodes, both ends
        pts = np.sort(np.concatenate([a + L * rng.random(8), a + L * np.array([0, .25, .5, .75, 1.0]), a + L * .5 + tol * rng.uniform(-.9, .9, 3) * .3]))
        pts = np.clip(pts, a, b)
        pairs = [(float(pts[i]), float(pts[j])) for i, j in sorted({tuple(sorted(rng.choice(len(pts), 2, replace=False))) for _ in range(30)}) if pts[j] > pts[i]][:NQ]
        S, T = np.array([x[0] for x in pairs]), np.array([x[1] for x in pairs])
        mon.case((name, cfg), span=(a, b), tol=tol)
        batch = jtu.tree_map(np.asarray, evb(key, q_, J(S), J(T)))
        perm = rng.permutation(len(S))
        batch2 = jtu.tree_map(np.asarray, evb(key, q_, J(S[perm]), J(T[perm])))
        scale = np.sqrt(L)

        def close(x, y, h, k, what, tol=5 * np.sqrt(eps)):
            f = {"W": 1.0, "H": L / h, "K": (L / h) ** 2}[k]
            mon.close(x / scale, y / scale, what, atol=tol * f)
            mon.event("identities")
        for k in batch:
            for i, q in enumerate(perm):
                close(batch2[k][i], batch[k][q], T[q] - S[q], k, "reordered queries agree")
        # rebuild the path from the same key; scalar compiled, eager, use_levy False
        # compiled separately, so a query on (or next to) a node of the tree may land on either side of it: sqrt(rounding)
        eager = dfx.VirtualBrownianTree(a, b, tol, shape, key, levy_area=lv)
        for i in range(min(5, len(S))):
            one, w, w0, single, frm, z = jtu.tree_map(np.asarray, misc(key, q_, J(S[i]), J(T[i])))
            for k in batch:
                close(np.asarray(one[k]), batch[k][i], T[i] - S[i], k, "repeated and batched queries agree")
            close(w, batch["W"][i], T[i] - S[i], "W", "the increment is the same with and without Levy area")
            w1 = single["W"]
            mon.close(z["W"], 0 * z["W"], "the path starts at zero", atol=0)
            for k in batch:
                close(single[k], frm[k], T[i] - a, k, "value at t is the increment from the start")
            close(w1 - w0, batch["W"][i], T[i] - S[i], "W", "increments equal differences of values")
            if i or cfg:
                continue
            # the path as users make it, outside compilation
            inc = eager.evaluate(J(S[i]), J(T[i]), use_levy=True)
            for k in batch:
                close(np.asarray(flat_inc(inc)[k]), batch[k][i], T[i] - S[i], k, "queries outside and inside compilation agree")
            mon.ok(type(inc) is lv, "type of increment is the requested Levy area", got=str(type(inc)))
            struct = shape if not isinstance(shape, tuple) else jax.ShapeDtypeStruct(shape, jnp.float64)
            mon.ok(jtu.tree_map(lambda x, s: x.shape == s.shape and x.dtype == s.dtype, inc.W, struct) == jtu.tree_map(lambda s: True, struct),
                   "shape and dtype of the path are those requested")
            for d in jtu.tree_leaves(inc.dt):
                mon.close(float(d), T[i] - S[i], "dt is the length of the interval", rtol=0, atol=(abs(a) + L) * 20 * eps)
        # additivity / Chen's relation over s < u < t
        tri = []
        while len(tri) < NQ:
            i = np.sort(rng.choice(len(pts), 3, replace=False))
            if pts[i[0]] < pts[i[1]] < pts[i[2]]:
                tri.append(pts[i])
        tri = np.array(tri)
        A = jtu.tree_map(np.asarray, evb(key, q_, J(tri[:, 0]), J(tri[:, 1])))
        B = jtu.tree_map(np.asarray, evb(key, q_, J(tri[:, 1]), J(tri[:, 2])))
        C = jtu.tree_map(np.asarray, evb(key, q_, J(tri[:, 0]), J(tri[:, 2])))
        for i, (s, u, t) in enumerate(tri):
            su, ut, st = u - s, t - u, t - s
            mon.close((A["W"][i] + B["W"][i]) / scale, C["W"][i] / scale, "increments over adjacent intervals add up", atol=30 * eps)
            mon.event("identities")
            if "H" in A:
                K3 = [x["K"][i] if "K" in x else None for x in (A, B, C)]
                a1, a2 = I12(su, A["W"][i], A["H"][i], K3[0])
                b1, b2 = I12(ut, B["W"][i], B["H"][i], K3[1])
                c1, c2 = I12(st, C["W"][i], C["H"][i], K3[2])
                mon.close((a1 + ut * A["W"][i] + b1) / (scale * L), c1 / (scale * L), "space-time areas combine as the integral of the path", atol=100 * eps)
                mon.event("identities")
                if c2 is not None:
                    want = a2 + b2 + su * b1 + A["W"][i] * (ut * su + ut * ut / 2)
                    mon.close(want / (scale * L * L), c2 / (scale * L * L), "space-time-time areas combine as the integral of the path", atol=300 * eps)
                    mon.event("identities")


def run_quad(name, p, mon):
    """The areas are those of the very path that the values describe."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    lv = getattr(dfx, LEVY[p["levy"]])
    rng = _rng(mon, name)
    n = 1024 if mon.tier == "quick" else 4096
    P = 24

    @eqx.filter_jit
    def go(keys, ts, a, b):
        def one(k):
            path = dfx.VirtualBrownianTree(a, b, (b - a) * 1e-5, (), k, levy_area=lv)
            return jax.vmap(path.evaluate)(ts), flat_inc(path.evaluate(ts[0], ts[-1], use_levy=True))
        return jax.lax.map(one, keys)
    for c in range(4):
        a = float(rng.uniform(-2, 2))
        L = float(np.exp(rng.uniform(-1, 2)))
        s, t = (a, a + L) if c == 0 else tuple(a + L * np.sort(rng.random(2)))
        if t - s < .05 * L:
            t = s + .05 * L if s + .05 * L <= a + L else a + L
        ts = np.linspace(s, t, n + 1)
        ts[-1] = t
        w, inc = go(jax.random.split(jax.random.key(int(rng.integers(2 ** 31))), P), jnp.asarray(ts), jnp.asarray(a), jnp.asarray(a + L))
        w = np.asarray(w)
        h = t - s
        mon.case((name, c), interval=(s, t))
        X = w - w[:, :1]
        tr = np.ones(n + 1)
        tr[0] = tr[-1] = .5
        r = ts - s
        B = X - (r / h) * X[:, -1:]
        H = (B * tr).sum(1) / n
        K = (B * tr * (h / 2 - r)).sum(1) / n / h
        sd = np.sqrt(h)
        mon.close(np.asarray(inc["W"])[:, 0] / sd, X[:, -1] / sd, "increment equals difference of values", atol=1e-12)
        mon.le(np.abs(np.asarray(inc["H"])[:, 0] - H).max() / sd, 8 * np.sqrt(1 / 12) / n, "space-time Levy area is the integral of the path")
        if "K" in inc:
            mon.le(np.abs(np.asarray(inc["K"])[:, 0] - K).max() / sd, 8 * np.sqrt(1 / 12) / n, "space-time-time Levy area is the integral of the path")
        mon.event("identities", 2 * P)


def run_unsafe(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from dv import rec
    lv = getattr(dfx, LEVY[p["levy"]])
    rng = _rng(mon, name)
    N = 20000 if mon.tier == "quick" else 80000
    # different intervals, however regular, never share their randomness
    for td in (jnp.float64, jnp.float32):
        ts = np.unique(np.concatenate([np.arange(0, 5, .25), 2.0 ** np.arange(-6, 7), rng.integers(1, 40, 6) / 10]).astype(td))
        i, j = np.triu_indices(len(ts), 1)
        path = dfx.UnsafeBrownianPath((), jax.random.key(int(rng.integers(2 ** 31))), levy_area=lv)
        W = np.asarray(jax.jit(jax.vmap(lambda s, t: path.evaluate(s, t)))(jnp.asarray(ts[i]), jnp.asarray(ts[j])), dtype=float)
        Z = W / np.sqrt(ts[j].astype(float) - ts[i].astype(float))
        o = np.argsort(Z)
        bad = np.nonzero(np.diff(Z[o]) < 1e-9)[0]
        mon.case((name, "distinct", str(td)), n=len(i))
        mon.ok(len(bad) == 0, "UnsafeBrownianPath: different intervals get different randomness",
               pairs=[(float(ts[i[q]]), float(ts[j[q]])) for b in bad[:2] for q in (o[b], o[b + 1])])
    for sh, td in (("vec", jnp.float64), ("tree", jnp.float32), ("f32", jnp.float64)):
        shape = mk_shape(sh)
        if True:
            pts = np.sort(rng.uniform(0.0, 4, 5)) if sh != "tree" else np.array([0, 1e-3, .5, .5 + 1 / 1024, 3.])
            pts = pts.astype(td)
            s, t = jnp.asarray(pts[:-1]), jnp.asarray(pts[1:])

            @eqx.filter_jit
            def go(keys):
                def one(k):
                    path = dfx.UnsafeBrownianPath(shape, k, levy_area=lv)
                    return jax.vmap(lambda s, t: flat_inc(path.evaluate(s, t, use_levy=True)))(s, t), rec.flat(path.evaluate(s[1], t[1])), rec.flat(path.evaluate(t[2]))
                return jax.vmap(one)(keys)
            keys = jax.random.split(jax.random.key(int(rng.integers(2 ** 31))), N)
            out, w1, v = jtu.tree_map(np.asarray, go(keys))
            mon.case((name, sh, str(td)), points=pts)
            h = np.diff(pts.astype(float))[None, :, None]
            X = np.concatenate([(out[k] / np.sqrt(h / c)).reshape(N, -1) for k, c in (("W", 1.), ("H", 12.), ("K", 720.)) if k in out], 1)
            mon.event("samples", X.size)
            gauss_test(mon, X, "UnsafeBrownianPath: increments and areas over different intervals")
            mon.close(w1, out["W"][:, 1], "UnsafeBrownianPath: same increment with and without Levy area", rtol=1e-6)
            gauss_test(mon, v.astype(float) / np.sqrt(float(t[2])), "UnsafeBrownianPath: value at a time")
            path = dfx.UnsafeBrownianPath(shape, keys[0], levy_area=lv)
            inc = path.evaluate(s[0], t[0], use_levy=True)
            mon.ok(type(inc) is lv, "UnsafeBrownianPath: type of increment")
            for d in jtu.tree_leaves(inc.dt):
                mon.close(float(d), float(t[0] - s[0]), "UnsafeBrownianPath: dt is the length of the interval", atol=1e-6)
            for k in out:
                mon.close(np.asarray(flat_inc(inc)[k]), out[k][0, 0], "UnsafeBrownianPath: same query, same key: same answer", rtol=1e-5, atol=1e-7)


def run_misuse(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    key = jax.random.key(0)
    S = jax.ShapeDtypeStruct

    def bad(f, what):
        try:
            out = jax.block_until_ready(f())
        except Exception as e:
            mon.ok(not isinstance(e, (AttributeError, KeyError)), what)
        else:
            mon.fail(what, got=str(out)[:100])
        mon.event("misuse")

    def good(f, what):
        try:
            jax.block_until_ready(f())
            mon.ok(True, what)
        except Exception as e:
            mon.fail(what, exc=repr(e)[:200])
    for lvn in LEVY.values():
        lv = getattr(dfx, lvn)
        for tree in (False, True):
            sh = {"a": S((2,), jnp.float64), "b": S((), jnp.float64)} if tree else (2,)
            ev1_ = eqx.filter_jit(lambda a, b, s: dfx.VirtualBrownianTree(a, b, (b - a) * 1e-3, sh, key, levy_area=lv).evaluate(s, use_levy=tree))
            ev2_ = eqx.filter_jit(lambda a, b, s, t: dfx.VirtualBrownianTree(a, b, (b - a) * 1e-3, sh, key, levy_area=lv).evaluate(s, t, use_levy=tree))
            for a, b in ((0., 1.), (-3., 5.), (100., 100.5)):
                d = (b - a) * 1e-4
                mon.case((lvn, a, b, tree))
                ev1 = lambda *x: ev1_(*map(jnp.asarray, (a, b, *x)))
                ev2 = lambda *x: ev2_(*map(jnp.asarray, (a, b, *x)))
                bad(lambda: ev1(a - d), "evaluating before the path's interval is an error")
                bad(lambda: ev1(b + d), "evaluating after the path's interval is an error")
                bad(lambda: ev2(a - d, b), "increment starting before the path's interval is an error")
                bad(lambda: ev2(a, b + d), "increment ending after the path's interval is an error")
                bad(lambda: ev2(b + d, b + 2 * d), "increment outside the path's interval is an error")
                good(lambda: ev2(a, b), "the whole interval may be queried")
                good(lambda: (ev1(a), ev1(b), ev1((a + b) / 2)), "points of the interval may be queried")
        bad(lambda: dfx.VirtualBrownianTree(1., 0., 1e-2, (2,), key, levy_area=lv).evaluate(.5), "a path with t0 > t1 is an error")
        bad(lambda: dfx.VirtualBrownianTree(1., 1., 1e-2, (2,), key, levy_area=lv).evaluate(1.), "a path with t0 = t1 is an error")
    for cls in ("VirtualBrownianTree", "UnsafeBrownianPath"):
        kw = dict(t0=0., t1=1., tol=1e-2) if cls.startswith("V") else {}
        bad(lambda: getattr(dfx, cls)(shape=S((2,), jnp.int32), key=key, **kw), "integer paths are an error")
        bad(lambda: getattr(dfx, cls)(shape=[S((2,), jnp.float64), S((2,), jnp.int32)], key=key, **kw), "integer leaves are an error")
        good(lambda: getattr(dfx, cls)(shape=[S((2,), jnp.float64), S((2,), jnp.float32)], key=key, **kw).evaluate(0., 1.), "floating leaves are accepted")


def run_solve(name, p, mon):
    """dy = dW: the solve must deliver the path's own increment, however it steps; with the non-tree path, independent increments."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, name)
    for solver in ("Euler", "EulerHeun", "ShARK", "SPaRK", "Heun"):
        lv = dfx.SpaceTimeLevyArea if solver in ("ShARK", "SPaRK") else dfx.BrownianIncrement

        def mk(key):
            if p["path"] == "vbt":
                return dfx.VirtualBrownianTree(-.5, 2.5, 1e-3, (2,), key, levy_area=lv)
            return dfx.UnsafeBrownianPath((2,), key, levy_area=lv)

        @eqx.filter_jit
        def go(key, dt0, t0, t1):
            path = mk(key)
            terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: jnp.zeros(2)), dfx.ControlTerm(lambda t, y, a: jnp.eye(2), path))
            ctl = dfx.ConstantStepSize()
            return dfx.diffeqsolve(terms, getattr(dfx, solver)(), t0, t1, dt0, jnp.zeros(2), stepsize_controller=ctl, adjoint=dfx.ForwardMode()).ys[0]
        mon.case((name, solver))
        if p["path"] == "vbt":
            for c in range(3):
                key = jax.random.key(int(rng.integers(2 ** 31)))
                t0, t1 = np.sort(rng.uniform(-.5, 2.5, 2))
                want = np.asarray(mk(key).evaluate(t0, t1))
                for n in (1, 3.7, 20, 101):
                    mon.close(np.asarray(go(key, *map(jnp.asarray, ((t1 - t0) / n, t0, t1)))), want, "a solve sees one fixed path whatever its steps", atol=1e-12)
                    mon.close(np.asarray(go(key, *map(jnp.asarray, ((t0 - t1) / n, t1, t0)))), -want, "a backward solve sees the same path", atol=1e-12)
                    mon.event("solves", 2)
        else:
            N = 4000
            keys = jax.random.split(jax.random.key(int(rng.integers(2 ** 31))), N)
            for n in (4, 9.5):
                out = np.asarray(eqx.filter_vmap(go, in_axes=(0, None, None, None))(keys, jnp.asarray(2.0 / n), jnp.asarray(0.0), jnp.asarray(2.0)))
                gauss_test(mon, out / np.sqrt(2), "sum of independent increments over a solve")
                mon.event("solves")
