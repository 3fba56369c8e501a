"""C12: interpolation of user data.

Random data with random patterns of missing values go through the real interpolation routines; every value,
derivative and coefficient is recomputed in NumPy from the documented formula.
"""
import zlib

import numpy as np

PROPERTY = "C12"
RULE = ("one evaluation = one data set (times, values, pattern of missing values, options) through one interpolation "
        "routine, all knots and random times in between queried from both sides; distinct = (routine, options, pattern); "
        "non-trivial = some value is missing or a query lies strictly inside an interval")
ASSUMPTIONS = ["queries inside [t0, t1] only: extrapolation is not documented",
               "several leading missing values with replace_nans_at_start may be filled with the constant or interpolated from it "
               "(the documentation does not say); channels without any observation are not judged then"]
MIN_EVENTS = {"linear_queries": 3000, "cubic_queries": 3000, "fill_linear": 250, "fill_hermite": 250, "rectilinear": 60,
              "lookahead": 120, "rejected": 20, "increments": 500, "knot_sides": 800, "batched": 10}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 10
    T = [(f"lin-{i}", dict(kind="lin", i=i)) for i in range(6 * m)]
    T += [(f"cub-{i}", dict(kind="cub", i=i)) for i in range(6 * m)]
    T += [(f"fill-{i}", dict(kind="fill", i=i)) for i in range(8 * m)]
    T += [(f"herm-{i}", dict(kind="herm", i=i)) for i in range(8 * m)]
    T += [(f"rect-{i}", dict(kind="rect", i=i)) for i in range(4 * m)]
    T += [(f"batch-{i}", dict(kind="batch", i=i)) for i in range(2 * m)]
    T.append(("reject", dict(kind="reject")))
    return T


def run(name, p, mon):
    return globals()["run_" + p["kind"]](name, p, mon, _rng(mon, name))


# --------------------------------------------------------------- helpers
def _tree(rng, T, i):
    """PyTree of shapes: arrays with leading T"""
    kind = i % 4
    f = lambda *s: rng.normal(size=(T,) + s)  # noqa: E731
    if kind == 0:
        return f()
    if kind == 1:
        return f(3)
    if kind == 2:
        return {"a": f(2), "b": (f(), f(2, 2))}
    return [f(1), {"x": f(2)}]


def _map(f, *t):
    import jax.tree_util as jtu

    return jtu.tree_map(f, *t)


def _leaves(t):
    import jax.tree_util as jtu

    return [np.asarray(x) for x in jtu.tree_leaves(t)]


def _times(rng, T):
    kind = rng.integers(3)
    if kind == 0:
        ts = np.cumsum(rng.uniform(0.05, 1.0, size=T))
    elif kind == 1:
        ts = np.cumsum(10.0 ** rng.uniform(-3, 1, size=T))
    else:
        ts = np.linspace(0.0, 1.0, T)
    return ts + rng.uniform(-5, 5)


def _queries(rng, ts, n=24):
    q = rng.uniform(ts[0], ts[-1], size=n)
    w = rng.integers(0, len(ts) - 1, size=n)
    inner = ts[w] + rng.uniform(0.02, 0.98, size=n) * (ts[w + 1] - ts[w])
    return np.concatenate([ts, inner, q])


def _idx(ts, q, left):
    return np.clip(np.searchsorted(ts, q, side="left" if left else "right") - 1, 0, len(ts) - 2)


def _ev(interp, q, left, der=False):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    f = _EV.get((left, der))
    if f is None:
        @eqx.filter_jit
        def f(interp, q):
            g = interp.derivative if der else interp.evaluate
            return jax.vmap(lambda t: g(t, left=left))(q)
        _EV[left, der] = f
    return f(interp, jnp.asarray(q))


_EV = {}


def _ev2(interp, a, b, left):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    f = _EV.get(("inc", left))
    if f is None:
        @eqx.filter_jit
        def f(interp, a, b):
            return jax.vmap(lambda s, t: interp.evaluate(s, t, left=left))(a, b)
        _EV["inc", left] = f
    return f(interp, jnp.asarray(a), jnp.asarray(b))


def _cmp(mon, got, want, what, tol, scale=None, **kw):
    """shape, NaN pattern and values"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        mon.fail(what + ": shape", got=list(got.shape), want=list(want.shape), **kw)
        return
    gn, wn = np.isnan(got), np.isnan(want)
    mon.ok(np.array_equal(gn, wn), what + ": missing where it should not be (or the reverse)", got=got, want=want, **kw)
    k = ~(gn | wn)
    if k.any():
        s = np.max(np.abs(want[k])) if scale is None else scale
        mon.close(got[k], want[k], what, rtol=tol, atol=tol * (s + 1e-30), **kw)


# --------------------------------------------------------------- the two paths
def run_lin(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    T = [2, 5, 9][p["i"] % 3]
    for rep in range(6):
        ts = _times(rng, T)
        ys = _tree(rng, T, p["i"])
        if rep % 2:
            ys = _map(lambda y: np.where(rng.random(y.shape) < 0.2, np.nan, y), ys)
        f32 = p["i"] == 5
        if f32:
            ts = np.sort(ts.astype(np.float32))
            ys = _map(lambda y: y.astype(np.float32), ys)
        tol = 2e-5 if f32 else 1e-11
        mon.case(("linear", T, p["i"] % 4, rep))
        I = dfx.LinearInterpolation(jnp.asarray(ts), _map(jnp.asarray, ys))
        mon.equal(float(I.t0), float(ts[0]), "t0")
        mon.equal(float(I.t1), float(ts[-1]), "t1")
        q = _queries(rng, ts).astype(ts.dtype)
        q = np.clip(q, ts[0], ts[-1])
        for left in (True, False):
            j = _idx(ts, q, left)
            tq = q.astype(np.float64)
            t64 = ts.astype(np.float64)
            wgt = (tq - t64[j]) / (t64[j + 1] - t64[j])
            for g, d, y in zip(_leaves(_ev(I, q, left)), _leaves(_ev(I, q, left, True)), _leaves(ys)):
                mon.ok(g.dtype == y.dtype, "dtype of the interpolation", got=str(g.dtype), want=str(y.dtype))
                y = y.astype(np.float64)
                w = wgt.reshape((-1,) + (1,) * (y.ndim - 1))
                want = y[j] * (1 - w) + y[j + 1] * w
                _cmp(mon, g, want, "linear interpolation value", tol)
                dt = (t64[j + 1] - t64[j]).reshape(w.shape)
                wd = (y[j + 1] - y[j]) / dt
                _cmp(mon, d, wd, "linear interpolation derivative", tol * (20 if f32 else 1))
                # observed points exactly
                kn = g[:T]
                ok = ~np.isnan(want[:T])
                if ok.any():
                    mon.close(kn[ok], y[ok], "linear interpolation passes through the data", rtol=tol, atol=tol)
                mon.event("linear_queries", len(q))
                mon.event("knot_sides", T)
        a, b = q[T:T + 16], q[T + 16:T + 32]
        for g, ya, yb in zip(_leaves(_ev2(I, a, b, True)), _leaves(_ev(I, a, True)), _leaves(_ev(I, b, True))):
            _cmp(mon, g, yb - ya, "linear increment", tol, scale=np.nanmax(np.abs(np.concatenate([ya.ravel(), yb.ravel(), [1e-3]]))))
            mon.event("increments", len(a))


def run_cub(name, p, mon, rng):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    T = [2, 5, 9][p["i"] % 3]
    for rep in range(6):
        ts = _times(rng, T)
        co = [_tree(rng, T - 1, 0 if T == 2 and p["i"] % 4 == 9 else p["i"]) for _ in range(4)]
        d, c, b, a = co
        mon.case(("cubic", T, p["i"] % 4, rep))
        I = dfx.CubicInterpolation(jnp.asarray(ts), tuple(_map(jnp.asarray, x) for x in co))
        q = np.clip(_queries(rng, ts), ts[0], ts[-1])
        for left in (True, False):
            j = _idx(ts, q, left)
            x = q - ts[j]
            for g, dg, D, C, B, A in zip(_leaves(_ev(I, q, left)), _leaves(_ev(I, q, left, True)), *map(_leaves, co)):
                z = x.reshape((-1,) + (1,) * (D.ndim - 1))
                want = ((D[j] * z + C[j]) * z + B[j]) * z + A[j]
                _cmp(mon, g, want, "cubic value", 1e-11, kn=left)
                _cmp(mon, dg, (3 * D[j] * z + 2 * C[j]) * z + B[j], "cubic derivative", 1e-11, kn=left)
                mon.event("cubic_queries", len(q))
                mon.event("knot_sides", T)
        s, e = q[T:T + 16], q[T + 16:T + 32]
        for left in (True, False):
            for g, ya, yb in zip(_leaves(_ev2(I, s, e, left)), _leaves(_ev(I, s, left)), _leaves(_ev(I, e, left))):
                _cmp(mon, g, yb - ya, "cubic increment", 1e-11, scale=np.max(np.abs(ya)) + np.max(np.abs(yb)))
                mon.event("increments", len(s))
        # increments across knots, from the requested side
        k = rng.integers(0, T, size=8)
        for left in (True, False):
            for g, ya, yb in zip(_leaves(_ev2(I, ts[k], s[:8], left)), _leaves(_ev(I, ts[k], left)), _leaves(_ev(I, s[:8], left))):
                _cmp(mon, g, yb - ya, "cubic increment from a knot", 1e-11, scale=np.max(np.abs(ya)) + np.max(np.abs(yb)))
                mon.event("increments", 8)
        t = jnp.asarray(float(s[0]))
        _, dj = jax.jvp(lambda t: I.evaluate(t), (t,), (jnp.ones_like(t),))
        for u, v in zip(_leaves(dj), _leaves(I.derivative(t))):
            _cmp(mon, u, v, "derivative equals the derivative of evaluate", 1e-10)


# --------------------------------------------------------------- missing values
def _nanpat(rng, shape, kind):
    T = shape[0]
    m = np.zeros(shape, bool)
    if kind == "none":
        return m
    if kind == "random":
        return rng.random(shape) < 0.4
    if kind == "dense":
        return rng.random(shape) < 0.75
    flat = m.reshape(T, -1)
    for c in range(flat.shape[1]):
        a = rng.integers(0, T - 1)
        if kind in ("start", "ends"):
            flat[:a, c] = True
        if kind in ("end", "ends"):
            b = rng.integers(a + 1, T + 1)
            flat[b:, c] = True
        if kind == "middle":
            a, b = np.sort(rng.integers(1, T, size=2))
            flat[a:b, c] = True
        if kind == "all" and rng.random() < 0.5:
            flat[:, c] = True
    return m


KINDS = ["none", "random", "dense", "start", "end", "ends", "middle", "all"]


def _fill_ref(ts, y, ff, rep):
    """list of acceptable filled columns"""
    T = len(y)
    obs = np.flatnonzero(~np.isnan(y))
    if len(obs) == 0:
        return None if rep is not None else [np.full(T, np.nan)]
    out = np.interp(ts, ts[obs], y[obs])
    out[obs] = y[obs]
    if obs[-1] < T - 1:
        out[obs[-1] + 1:] = y[obs[-1]] if ff else np.nan
    f = obs[0]
    if f == 0:
        return [out]
    if rep is None:
        out[:f] = np.nan
        return [out]
    o2 = out.copy()
    out[:f] = rep
    o2[:f] = rep + (y[f] - rep) * (ts[:f] - ts[0]) / (ts[f] - ts[0])
    return [out, o2]


def _columns(y):
    return np.asarray(y).reshape(np.shape(y)[0], -1)


def _repl(rng, ys, kind):
    """replacement tree: scalars or per-channel arrays; and its broadcast columns"""
    if kind == 0:
        return None, [None] * len(_leaves(ys))
    if kind == 1:
        r = _map(lambda y: float(rng.normal()), ys)
    else:
        r = _map(lambda y: rng.normal(size=y.shape[1:]), ys)
    return r, [np.broadcast_to(a, y.shape[1:]).reshape(-1) for a, y in zip(_leaves(r), _leaves(ys))]


def _accept(mon, got, refs, what, tol, **kw):
    if refs is None:
        return
    s = np.nanmax(np.abs(np.concatenate([np.concatenate(refs), [1e-3]])))
    for r in refs:
        n = np.isnan(r)
        if np.array_equal(np.isnan(got), n) and np.all(np.abs(got[~n] - r[~n]) <= tol * s):
            mon.ok(True, what)
            return
    mon.fail(what, got=got, want=refs[0], **kw)


def run_fill(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    T = [2, 6, 11, 3][p["i"] % 4]
    ff = bool(p["i"] & 4)
    for rep in range(40):
        kind = KINDS[rep % len(KINDS)]
        ts = _times(rng, T)
        ys = _tree(rng, T, p["i"] // 2)
        ys = _map(lambda y: np.where(_nanpat(rng, y.shape, kind), np.nan, y), ys)
        rk = int(rng.integers(3))
        r, rc = _repl(rng, ys, rk)
        mon.case(("fill", T, ff, rk, kind, rep))
        out = dfx.linear_interpolation(jnp.asarray(ts), _map(jnp.asarray, ys), fill_forward_nans_at_end=ff,
                                       replace_nans_at_start=r if r is None else _map(jnp.asarray, r))
        for g, y, rr in zip(_leaves(out), _leaves(ys), rc):
            mon.ok(g.shape == y.shape and g.dtype == y.dtype, "shape and dtype of the filled data")
            G, Y = _columns(g), _columns(y)
            for c in range(Y.shape[1]):
                o = ~np.isnan(Y[:, c])
                mon.equal(G[o, c], Y[o, c], "observed values are kept")
                _accept(mon, G[:, c], _fill_ref(ts, Y[:, c], ff, None if rr is None else rr[c]), "linear filling of missing values", 1e-12,
                        ts=ts, y=Y[:, c], fill_end=ff, replace=None if rr is None else float(rr[c]))
                mon.event("fill_linear")
        # no lookahead beyond the next observation
        i = int(rng.integers(0, T))
        new = _map(lambda y: _after_next(rng, y, i), ys)
        out2 = dfx.linear_interpolation(jnp.asarray(ts), _map(jnp.asarray, new), fill_forward_nans_at_end=ff,
                                        replace_nans_at_start=r if r is None else _map(jnp.asarray, r))
        for a, b, y in zip(_leaves(out), _leaves(out2), _leaves(ys)):
            A, B, Y = _columns(a), _columns(b), _columns(y)
            for c in range(Y.shape[1]):
                if np.any(~np.isnan(Y[i:, c])):
                    mon.ok(np.array_equal(A[:i + 1, c], B[:i + 1, c], equal_nan=True), "filled values depend on data after the next observation",
                           y=Y[:, c], index=i, got=B[:i + 1, c], want=A[:i + 1, c])
                    mon.event("lookahead")


def _after_next(rng, y, i):
    """change everything after the first observation at or after index i"""
    y = np.array(y)
    Y = y.reshape(len(y), -1)
    for c in range(Y.shape[1]):
        o = np.flatnonzero(~np.isnan(Y[i:, c]))
        if len(o):
            k = i + o[0] + 1
            Y[k:, c] = np.where(rng.random(len(Y) - k) < 0.3, np.nan, rng.normal(size=len(Y) - k))
    return Y.reshape(y.shape)


def _herm_col(ts, y, ff, rep, deriv0):
    """list of acceptable (value, derivative) functions on intervals: piece i -> (p, n, yp, mp, yn) or None"""
    T = len(y)
    y = y.copy()
    if np.all(np.isnan(y)) and rep is not None:
        return None
    if ff and np.any(~np.isnan(y)):
        k = np.flatnonzero(~np.isnan(y))[-1]
        y[k + 1:] = y[k]
    starts = [y]
    if np.isnan(y[0]) and rep is not None:
        f = np.flatnonzero(~np.isnan(y))[0]
        y1, y2 = y.copy(), y.copy()
        y1[0] = rep
        y2[:f] = rep
        starts = [y1, y2]
    outs = []
    for y in starts:
        obs = np.flatnonzero(~np.isnan(y))
        pieces = [None] * (T - 1)
        m = {}
        for k, o in enumerate(obs):
            if k == 0:
                if o == 0 and deriv0 is not None:
                    m[o] = deriv0
                elif len(obs) > 1:
                    m[o] = (y[obs[1]] - y[o]) / (ts[obs[1]] - ts[o])
            else:
                m[o] = (y[o] - y[obs[k - 1]]) / (ts[o] - ts[obs[k - 1]])
        for k in range(len(obs) - 1):
            a, b = obs[k], obs[k + 1]
            for i in range(a, b):
                pieces[i] = (ts[a], ts[b], y[a], m[a], y[b])
        outs.append(pieces)
    return outs


def _herm_eval(piece, t):
    ta, tb, ya, ma, yb = piece
    h = tb - ta
    x = (t - ta) / h
    mb = (yb - ya) / h
    v = (2 * x ** 3 - 3 * x ** 2 + 1) * ya + (x ** 3 - 2 * x ** 2 + x) * h * ma + (3 * x ** 2 - 2 * x ** 3) * yb + (x ** 3 - x ** 2) * h * mb
    d = ((6 * x ** 2 - 6 * x) * ya + (6 * x - 6 * x ** 2) * yb) / h + (3 * x ** 2 - 4 * x + 1) * ma + (3 * x ** 2 - 2 * x) * mb
    return v, d


def run_herm(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    T = [2, 6, 11, 3][p["i"] % 4]
    ff = bool(p["i"] & 4)
    for rep in range(40):
        kind = KINDS[rep % len(KINDS)]
        ts = _times(rng, T)
        ys = _tree(rng, T, p["i"] // 2)
        ys = _map(lambda y: np.where(_nanpat(rng, y.shape, kind), np.nan, y), ys)
        rk = int(rng.integers(3))
        r, rc = _repl(rng, ys, rk)
        dk = int(rng.integers(3))
        d0, dc = _repl(rng, ys, 2 * (dk == 1))
        jd = None if d0 is None else _map(jnp.asarray, d0)
        jr_ = None if r is None else _map(jnp.asarray, r)

        def coeffs(data):
            return dfx.backward_hermite_coefficients(jnp.asarray(ts), _map(jnp.asarray, data), deriv0=jd, replace_nans_at_start=jr_,
                                                     fill_forward_nans_at_end=ff)

        mon.case(("hermite", T, ff, rk, dk, kind, rep))
        co = coeffs(ys)
        I = dfx.CubicInterpolation(jnp.asarray(ts), co)
        w = np.repeat(np.arange(T - 1), 3)
        fr = np.tile([0.0, 0.37, 1.0], T - 1)
        q = ts[w] + fr * (ts[w + 1] - ts[w])
        q[2::3] = ts[1:]
        vl, vr = _leaves(_ev(I, q, True)), _leaves(_ev(I, q, False))
        dl, dr = _leaves(_ev(I, q, True, True)), _leaves(_ev(I, q, False, True))
        for lvl, lvr, ldl, ldr, y, rr, dd in zip(vl, vr, dl, dr, _leaves(ys), rc, dc):
            VL, VR, DL, DR, Y = map(_columns, (lvl, lvr, ldl, ldr, y))
            for c in range(Y.shape[1]):
                outs = _herm_col(ts, Y[:, c], ff, None if rr is None else rr[c], None if dd is None else dd[c])
                mon.event("fill_hermite")
                if outs is None:
                    continue
                best = None
                for pieces in outs:
                    bad = []
                    for n, (i, t, f) in enumerate(zip(w, q, fr)):
                        # start of a piece: from the right, its end: from the left, inside: both
                        got = [(VR[n, c], DR[n, c])] if f == 0.0 else [(VL[n, c], DL[n, c])] if f == 1.0 else [(VL[n, c], DL[n, c]), (VR[n, c], DR[n, c])]
                        if pieces[i] is None:
                            if f == 0.37 and not all(np.isnan(g[0]) for g in got):
                                bad.append((t, got, None))
                            continue
                        v, d = _herm_eval(pieces[i], t)
                        h = pieces[i][1] - pieces[i][0]
                        s = abs(pieces[i][2]) + abs(pieces[i][4]) + h * abs(pieces[i][3])
                        mon.event("cubic_queries", len(got))
                        for gv, gd in got:
                            if not (abs(gv - v) <= 1e-9 * s and abs(gd - d) <= 1e-9 * s / h * (1 + h / (ts[i + 1] - ts[i])) ** 0):
                                bad.append((t, (gv, gd), (v, d)))
                    if best is None or len(bad) < len(best):
                        best = bad
                if best:
                    t, g, wnt = best[0]
                    mon.fail("backward Hermite spline differs from the cubic through the observations", t=float(t), got=np.ravel(g), want=wnt and list(wnt), ts=ts, y=Y[:, c],
                             fill_end=ff, replace=None if rr is None else float(rr[c]), deriv0=None if dd is None else float(dd[c]), wrong=len(best))
                else:
                    mon.ok(True, "backward Hermite spline")
        # no lookahead: pieces up to index i use data up to the next observation after i
        i = int(rng.integers(0, T - 1))
        new = _map(lambda y: _after_next(rng, y, i + 1), ys)
        co2 = coeffs(new)
        for A, B in zip(co, co2):
            for a, b, y in zip(_leaves(A), _leaves(B), _leaves(ys)):
                a, b, Y = _columns(a), _columns(b), _columns(y)
                for c in range(Y.shape[1]):
                    # (before the first observation the default first slope looks at the next one after it)
                    if np.any(~np.isnan(Y[i + 1:, c])) and np.any(~np.isnan(Y[:i + 1, c])):
                        mon.ok(np.array_equal(a[:i + 1, c], b[:i + 1, c], equal_nan=True), "Hermite coefficients depend on data after the next observation", y=Y[:, c], index=i)
                        mon.event("lookahead")


# --------------------------------------------------------------- rectilinear
def run_rect(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    T = [2, 5, 8, 3][p["i"] % 4]
    for rep in range(16):
        kind = KINDS[rep % len(KINDS)]
        ts = _times(rng, T)
        ys = _tree(rng, T, rep)
        ys = _map(lambda y: np.where(_nanpat(rng, y.shape, kind), np.nan, y), ys)
        rk = int(rng.integers(3))
        r, rc = _repl(rng, ys, rk)
        mon.case(("rectilinear", T, rk, kind, rep))
        nt, ny = dfx.rectilinear_interpolation(jnp.asarray(ts), _map(jnp.asarray, ys), None if r is None else _map(jnp.asarray, r))
        mon.equal(np.asarray(nt), np.repeat(ts, 2)[1:], "rectilinear times")
        for g, y, rr in zip(_leaves(ny), _leaves(ys), rc):
            G, Y = _columns(g), _columns(y)
            want = np.full((2 * T - 1, Y.shape[1]), np.nan)
            for c in range(Y.shape[1]):
                cur = np.nan if rr is None else rr[c]
                for k in range(T):
                    if not np.isnan(Y[k, c]):
                        cur = Y[k, c]
                    want[2 * k, c] = cur
                    if k < T - 1:
                        want[2 * k + 1, c] = cur
            mon.ok(G.shape == want.shape and np.array_equal(G, want, equal_nan=True), "rectilinear values", got=G, want=want, ts=ts)
            mon.event("rectilinear")
        # the documented pipeline: time stacked as data, integer knots
        y0 = _leaves(ny)[0].reshape(2 * T - 1, -1)[:, :1]
        data = jnp.asarray(np.concatenate([np.asarray(nt)[:, None], y0], axis=1))
        I = dfx.LinearInterpolation(jnp.arange(2 * T - 1), data)
        q = rng.uniform(0, 2 * T - 2, size=8)
        got = np.asarray(_ev(I, q, True))
        j = _idx(np.arange(2 * T - 1), q, True)
        want = np.asarray(data)[j] + (np.asarray(data)[j + 1] - np.asarray(data)[j]) * (q - j)[:, None]
        _cmp(mon, got, want, "path through rectilinear data", 1e-11)
        mon.event("linear_queries", 8)


# --------------------------------------------------------------- batching
def run_batch(name, p, mon, rng):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    B, T = 6, 7
    ts = np.stack([_times(rng, T) for _ in range(B)])
    ys = rng.normal(size=(B, T, 2))
    ys[rng.random(ys.shape) < 0.3] = np.nan
    q = np.stack([np.clip(_queries(rng, t, 8), t[0], t[-1]) for t in ts])

    def f(t, y, q):
        lin = dfx.linear_interpolation(t, y, fill_forward_nans_at_end=True, replace_nans_at_start=0.5)
        co = dfx.backward_hermite_coefficients(t, y, fill_forward_nans_at_end=True)
        rt, ry = dfx.rectilinear_interpolation(t, y)
        L = dfx.LinearInterpolation(t, lin)
        C = dfx.CubicInterpolation(t, co)
        return lin, co, rt, ry, jax.vmap(L.evaluate)(q), jax.vmap(L.derivative)(q), jax.vmap(C.evaluate)(q), jax.vmap(C.derivative)(q)

    args = [jnp.asarray(x) for x in (ts, ys, q)]
    many = jax.vmap(f)(*args)
    jit = eqx.filter_jit(jax.vmap(f))(*args)
    mon.case(("batch", p["i"]))
    for a, b in zip(_leaves(many), _leaves(jit)):
        _cmp(mon, b, a, "compiled batch", 1e-10)
    for k in range(B):
        one = f(*[x[k] for x in args])
        for a, b in zip(_leaves(many), _leaves(one)):
            _cmp(mon, a[k], b, "batched interpolation equals the single one", 1e-10)
        mon.event("batched")


# --------------------------------------------------------------- rejections
def run_reject(name, p, mon, rng):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    y = jnp.asarray(rng.normal(size=(4, 2)))
    good = jnp.array([0.0, 1.0, 1.5, 2.0])
    bad = dict(equal=[0.0, 1.0, 1.0, 2.0], down=[0.0, 1.0, 0.5, 2.0], nan=[0.0, jnp.nan, 1.0, 2.0], nan_end=[0.0, 1.0, 2.0, jnp.nan], reverse=[2.0, 1.5, 1.0, 0.0])
    fns = dict(linear=lambda t, y: dfx.linear_interpolation(t, y), hermite=lambda t, y: dfx.backward_hermite_coefficients(t, y),
               rectilinear=lambda t, y: dfx.rectilinear_interpolation(t, y))

    def rejected(f, what):
        mon.case(("reject", what))
        try:
            jax.block_until_ready(f())
        except Exception as e:  # noqa: BLE001
            mon.ok(True, what, error=type(e).__name__)
            mon.event("rejected")
        else:
            mon.fail("not rejected: " + what)

    for fn, f in fns.items():
        mon.case(("accept", fn))
        jax.block_until_ready(f(good, y))
        jax.block_until_ready(eqx.filter_jit(f)(good, y))
        mon.ok(True, "valid times accepted")
        for b, t in bad.items():
            t = jnp.array(t)
            rejected(lambda: f(t, y), f"{fn}: {b} times")
            if b in ("equal", "nan"):
                rejected(lambda: eqx.filter_jit(f)(t, y), f"{fn}: {b} times under jit")
        rejected(lambda: f(good[:1], y[:1]), f"{fn}: one time")
        rejected(lambda: f(jnp.stack([good, good]), y), f"{fn}: two-dimensional times")
    rejected(lambda: dfx.LinearInterpolation(good[:3], y), "LinearInterpolation: lengths differ")
    rejected(lambda: dfx.LinearInterpolation(good, (y, y[:3])), "LinearInterpolation: lengths of one leaf differ")
    rejected(lambda: dfx.CubicInterpolation(good, (y, y, y, y)), "CubicInterpolation: coefficients at all times")
    for k in range(4):
        co = [y[:3]] * 4
        co[k] = y[:2]
        rejected(lambda: dfx.CubicInterpolation(good, tuple(co)), f"CubicInterpolation: coefficient {k} too short")
    rejected(lambda: dfx.LinearInterpolation(good[None], y[None]), "LinearInterpolation: two-dimensional times")
