"""C17: ill-posed requests are rejected instead of silently solved.

Each invalid request is a small change of a valid one. Requests whose validity depends on values are sent, with traced values, to one compiled real
solve (alone and as one element of a batch); requests whose validity depends on structure are sent to the public API in both directions of time. The
monitor is a table: the invalid request must raise, the neighbouring valid one must not and must return what was asked for.
"""
import zlib

import numpy as np

PROPERTY = "C17"
RULE = ("one evaluation = one request sent to the public API, judged by whether it raised; distinct = (kind of request, what was made invalid, direction, "
        "batched or not); non-trivial = the request differs from a valid one in exactly the invalid respect, or is the valid neighbour")
ASSUMPTIONS = ["any exception counts as rejection; which one is not judged",
               "wrong-signed initial steps whose product with the interval underflows in floating point are not generated"]
MIN_EVENTS = {"runtime_invalid": 350, "runtime_valid": 250, "batched_invalid": 80, "static_invalid": 170, "static_valid": 170, "one_ulp": 30, "backward": 200}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 6
    T = []
    for i in range(m):
        T += [(f"ts:{c}:{d}:{i}", dict(kind="ts", c=c, d=d, _cost=3)) for c, d in (("const", "f8"), ("pid", "f8"), ("subs", "f8"), ("pid", "f4"), ("event", "f8"), ("stepto", "f8"), ("back", "f8"))]
        T += [(f"dt0:{c}:{d}:{i}", dict(kind="dt0", c=c, d=d)) for c, d in (("const", "f8"), ("pid", "f8"), ("clip", "f8"), ("const", "f4"), ("back", "f8"))]
        T += [(f"stepto:{d}:{i}", dict(kind="stepto", d=d)) for d in ("f8", "f4")]
        T += [(f"vbt:{w}:{i}", dict(kind="vbt", w=w)) for w in ("solve", "evaluate", "construct")]
        T += [(f"uld:{s}:{i}", dict(kind="uld", s=s)) for s in ("ALIGN", "ShOULD", "QUICSORT")]
        T += [(f"interp:{w}:{i}", dict(kind="interp", w=w)) for w in ("linear", "rectilinear", "hermite")]
    T += [(f"static:{g}", dict(kind="static", g=g, _cost=5)) for g in GROUPS]
    return T


def run(name, p, mon):
    return globals()["run_" + p["kind"]](name, p, mon)


def _raises(f, *a):
    """None, or the exception"""
    import equinox as eqx
    import jax
    import jax.tree_util as jtu
    try:
        out = f(*a)
        jax.block_until_ready(jtu.tree_leaves(eqx.filter(out, eqx.is_array)))
    except Exception as e:   # noqa: BLE001
        return e, None
    return None, out


def _judge(mon, key, f, args, bad, what, batched, back, good_check=None, **info):
    e, out = _raises(f, *args)
    mon.case(key, nontrivial=True, change=what, **info)
    mon.event("backward", back)
    if bad:
        mon.event("batched_invalid" if batched else "runtime_invalid")
        mon.ok(e is not None, "an invalid request raises", change=what, **info)
    else:
        mon.event("runtime_valid")
        if mon.ok(e is None, "a valid request is accepted", change=what, error=str(e)[-300:] if e else "", **info) and good_check:
            good_check(out)


def _wrap(one, B=3):
    """compiled alone, and over a batch"""
    import equinox as eqx
    import jax
    return eqx.filter_jit(one), eqx.filter_jit(lambda *a: jax.vmap(one)(*a))


def _nxt(x, d, dt):
    """the next number; next to 0 a small one that is not flushed to 0"""
    return np.asarray(d * 1e-30, dt) if x == 0 else np.nextafter(np.asarray(x, dt), np.asarray(d * np.inf, dt))


def _ulp_or(rng, x, d, L, dt, mon):
    """a value beyond x in direction d: by one unit in the last place, or by more"""
    if rng.random() < 0.4:
        mon.event("one_ulp")
        return _nxt(x, d, dt)
    return np.asarray(x + d * L * 10.0 ** rng.uniform(-5, 0.5), dt)


# ------------------------------------------------------------------ save times
def run_ts(name, p, mon):
    import diffrax as dfx
    import jax.numpy as jnp

    rng = _rng(mon, name)
    dt = np.dtype(p["d"])
    c = p["c"]
    M = 5

    def one(t0, t1, ts, ts2, gr):
        vf = dfx.ODETerm(lambda t, y, a: -y + t)
        kw = dict(saveat=dfx.SaveAt(ts=ts))
        ctrl, dt0 = dfx.ConstantStepSize(), (t1 - t0) / 4
        if c in ("pid", "event"):
            ctrl = dfx.PIDController(rtol=1e-3, atol=1e-3)
        if c == "stepto":
            ctrl, dt0 = dfx.StepTo(gr), None
        if c == "subs":
            kw = dict(saveat=dfx.SaveAt(subs={"a": dfx.SubSaveAt(ts=ts2, fn=lambda t, y, a: t), "b": [dfx.SubSaveAt(t1=True), dfx.SubSaveAt(t0=True, ts=ts)]}))
        if c == "event":
            kw["event"] = dfx.Event(lambda t, y, args, **k: y > 1e6)
        if c == "back":
            kw["adjoint"] = dfx.BacksolveAdjoint()
        sol = dfx.diffeqsolve(vf, dfx.Heun(), t0, t1, dt0, jnp.asarray(1.0, t0.dtype), stepsize_controller=ctrl, max_steps=64, **kw)
        return sol.ts["b"][1] if c == "subs" else sol.ts

    alone, batch = _wrap(one)

    def draw(bad):
        sg = float(rng.choice([-1, 1]))
        t0 = np.asarray(rng.choice([0.0, rng.uniform(-3, 3)]), dt)
        t1 = np.asarray(t0 + sg * rng.uniform(0.3, 2), dt)
        L = abs(float(t1) - float(t0))
        u = np.sort(rng.uniform(0, 1, M))
        if rng.random() < 0.5:
            u[0] = 0
        if rng.random() < 0.5:
            u[-1] = 1
        ts = np.asarray(t0 + u * (float(t1) - float(t0)), dt)
        ts = np.clip(ts, min(t0, t1), max(t0, t1))
        ts[u == 0], ts[u == 1] = t0, t1
        if rng.random() < 0.4:
            j = rng.integers(1, M)
            ts[j] = ts[j - 1]
        ts2 = np.asarray(t0 + np.linspace(0, 1, M) * 0.9 * (float(t1) - float(t0)), dt)
        gr = np.linspace(t0, t1, 4).astype(dt)
        gr[0], gr[-1] = t0, t1
        what = "valid"
        if bad:
            what = ["swap", "beyond t1", "before t0", "reversed", "nan", "equal-then-back"][int(rng.integers(6))]
            if what == "swap":
                ts = np.asarray(t0 + np.sort(rng.uniform(0, 1, M)) * (float(t1) - float(t0)), dt)
                j = int(rng.integers(0, M - 1))
                if ts[j] == ts[j + 1]:
                    ts[j + 1] = _nxt(ts[j], sg, dt)
                ts[[j, j + 1]] = ts[[j + 1, j]]
            elif what == "beyond t1":
                ts[-1] = _ulp_or(rng, t1, sg, L, dt, mon)
            elif what == "before t0":
                ts[0] = _ulp_or(rng, t0, -sg, L, dt, mon)
            elif what == "reversed":
                ts = np.asarray(t0 + np.linspace(0.9, 0.1, M) * (float(t1) - float(t0)), dt)
            elif what == "equal-then-back":
                j = int(rng.integers(1, M))
                ts = np.asarray(np.full(M, t0 + 0.5 * (float(t1) - float(t0))), dt)
                ts[j:] = _nxt(ts[0], -sg, dt)
                mon.event("one_ulp")
            else:
                ts[rng.integers(M)] = np.nan
        return (t0, t1, ts, ts2, gr), what, sg

    n = 40 if mon.tier == "quick" else 150
    for r in range(n):
        bad = r % 3 != 0
        a, what, sg = draw(bad)
        want = np.concatenate([[a[0]], a[2]]) if c == "subs" else a[2]
        _judge(mon, (name, what, sg, "alone"), alone, tuple(map(jnp.asarray, a)), bad, "save times: " + what, False, sg < 0,
               good_check=lambda out: mon.equal(np.asarray(out), want, "requested save times are returned"), t0=a[0], t1=a[1], ts=a[2])
    for r in range(n // 3):
        bad = r % 3 != 0
        els = [draw(False), draw(bad), draw(False)]
        els = [els[i] for i in rng.permutation(3)]
        args = tuple(jnp.asarray(np.stack([e[0][k] for e in els])) for k in range(5))
        what = [e[1] for e in els]
        _judge(mon, (name, tuple(what), "batch"), batch, args, bad, f"save times in a batch: {what}", True, any(e[2] < 0 for e in els))


# ------------------------------------------------------------------ sign of the initial step
def run_dt0(name, p, mon):
    import diffrax as dfx
    import jax.numpy as jnp

    rng = _rng(mon, name)
    dt = np.dtype(p["d"])
    c = p["c"]

    def one(t0, t1, dt0):
        ctrl = dfx.ConstantStepSize() if c in ("const", "back") else dfx.PIDController(rtol=1e-3, atol=1e-3)
        if c == "clip":
            ctrl = dfx.ClipStepSizeController(ctrl, step_ts=jnp.stack([t0 + 0.3 * (t1 - t0)]))
        kw = dict(adjoint=dfx.BacksolveAdjoint()) if c == "back" else {}
        sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y + t), dfx.Heun(), t0, t1, dt0, jnp.asarray(1.0, t0.dtype), stepsize_controller=ctrl, max_steps=64, **kw)
        return sol.ts

    alone, batch = _wrap(one)

    def draw(bad):
        sg = float(rng.choice([-1, 1]))
        t0 = rng.choice([0.0, rng.uniform(-3, 3)])
        L = rng.uniform(0.3, 2)
        t1 = t0 + sg * L
        d = sg * L * rng.choice([1.0, rng.uniform(0.05, 1), rng.uniform(1, 20)])
        what = "valid"
        if bad:
            d = -sg * L * 10.0 ** (rng.uniform(-14, -8) if rng.random() < 0.4 else rng.uniform(-8, 2))
            what = "wrong sign"
        elif rng.random() < 0.15:
            t1, d, what = t0, d * rng.choice([-1, 1]), "empty interval"
        return tuple(np.asarray(x, dt) for x in (t0, t1, d)), what, sg

    n = 30 if mon.tier == "quick" else 120
    for r in range(n):
        bad = r % 2 == 0
        a, what, sg = draw(bad)
        _judge(mon, (name, what, sg, "alone"), alone, tuple(map(jnp.asarray, a)), bad, "initial step: " + what, False, sg < 0,
               good_check=lambda out: mon.equal(np.asarray(out)[0], a[1], "the solve reached its end"), t0=a[0], t1=a[1], dt0=a[2])
    for r in range(n // 2):
        bad = r % 3 != 0
        els = [draw(False), draw(bad), draw(False)]
        els = [els[i] for i in rng.permutation(3)]
        args = tuple(jnp.asarray(np.stack([e[0][k] for e in els])) for k in range(3))
        what = [e[1] for e in els]
        _judge(mon, (name, tuple(what), "batch"), batch, args, bad, f"initial step in a batch: {what}", True, any(e[2] < 0 for e in els))
    if p["d"] == "f8":
        # values known before compilation (Python numbers, also integers)
        for a, bad in (((0.0, 1.0, -0.5), True), ((1.0, 0.0, 0.5), True), ((1, 0, -1), False), ((0, 2, -1), True), ((2, 0, 1), True)):
            _judge(mon, (name, a), lambda: one_py(c, *a), (), bad, "initial step given as numbers", False, a[0] > a[1], a=list(a))


def one_py(c, t0, t1, dt0):
    import diffrax as dfx
    ctrl = dfx.ConstantStepSize() if c in ("const", "back") else dfx.PIDController(rtol=1e-3, atol=1e-3)
    return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Heun(), t0, t1, dt0, 1.0, stepsize_controller=ctrl, max_steps=64).ts


# ------------------------------------------------------------------ lists of steps
def run_stepto(name, p, mon):
    import diffrax as dfx
    import jax.numpy as jnp

    rng = _rng(mon, name)
    dt = np.dtype(p["d"])
    M = 5

    def one(t0, t1, ts):
        sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y + t), dfx.Heun(), t0, t1, None, jnp.asarray(1.0, t0.dtype), stepsize_controller=dfx.StepTo(ts), saveat=dfx.SaveAt(t0=True, steps=True), max_steps=M - 1)
        return sol.ts

    alone, batch = _wrap(one)

    def draw(bad):
        sg = float(rng.choice([-1, 1]))
        t0 = np.asarray(rng.choice([0.0, rng.uniform(-3, 3)]), dt)
        t1 = np.asarray(t0 + sg * rng.uniform(0.3, 2), dt)
        L = abs(float(t1) - float(t0))
        u = np.concatenate([[0], np.sort(rng.uniform(0.05, 0.95, M - 2)), [1]])
        ts = np.asarray(t0 + u * (float(t1) - float(t0)), dt)
        ts[0], ts[-1] = t0, t1
        what = "valid"
        if bad:
            what = ["repeated", "swapped", "starts elsewhere", "ends elsewhere", "reversed", "nan"][int(rng.integers(6))]
            if what == "repeated":
                j = int(rng.integers(0, M - 1))
                j, k = (j, j + 1) if j > 0 else (1, 0)
                ts[j] = ts[k]
            elif what == "swapped":
                j = int(rng.integers(1, M - 2))
                ts[[j, j + 1]] = ts[[j + 1, j]]
            elif what == "starts elsewhere":
                ts[0] = _ulp_or(rng, t0, rng.choice([-1, 1]) * sg, L * 1e-3, dt, mon)
            elif what == "ends elsewhere":
                ts[-1] = _ulp_or(rng, t1, rng.choice([-1, 1]) * sg, L * 1e-3, dt, mon)
            elif what == "reversed":
                ts = ts[::-1].copy()
            else:
                ts[rng.integers(M)] = np.nan
        return (t0, t1, ts), what, sg

    n = 40 if mon.tier == "quick" else 150
    for r in range(n):
        bad = r % 3 != 0
        a, what, sg = draw(bad)
        _judge(mon, (name, what, sg), alone, tuple(map(jnp.asarray, a)), bad, "step list: " + what, False, sg < 0,
               good_check=lambda out: mon.equal(np.asarray(out), a[2], "exactly these steps were made"), t0=a[0], t1=a[1], ts=a[2])
    for r in range(n // 3):
        bad = r % 3 != 0
        els = [draw(False), draw(bad), draw(False)]
        args = tuple(jnp.asarray(np.stack([e[0][k] for e in els])) for k in range(3))
        what = [e[1] for e in els]
        _judge(mon, (name, tuple(what), "batch"), batch, args, bad, f"step list in a batch: {what}", True, any(e[2] < 0 for e in els))


# ------------------------------------------------------------------ Brownian motion outside its range
def run_vbt(name, p, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    import jax.random as jr

    rng = _rng(mon, name)
    w = p["w"]
    lev = [dfx.BrownianIncrement, dfx.SpaceTimeLevyArea, dfx.SpaceTimeTimeLevyArea]

    for L_ in lev if w == "evaluate" else lev[:1]:
        def one(b0, b1, t0, t1, seed):
            vbt = dfx.VirtualBrownianTree(b0, b1, 1e-2, (2,), jr.key(seed), levy_area=L_)
            if w == "construct":
                return vbt.evaluate(b0, b1)
            if w == "evaluate":
                return vbt.evaluate(t0, t1, use_levy=L_ is not dfx.BrownianIncrement)
            return dfx.diffeqsolve(dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -y), dfx.ControlTerm(lambda t, y, a: jnp.ones((2, 2)), vbt)), dfx.Euler(), t0, t1, (t1 - t0) / 8, jnp.ones(2)).ys

        alone, batch = _wrap(one)

        def draw(bad):
            sg = float(rng.choice([-1, 1])) if w == "solve" else 1.0
            b0 = rng.choice([0.0, rng.uniform(-2, 2)])
            L = rng.uniform(0.5, 3)
            b1 = b0 + L
            u = np.sort(rng.uniform(0, 1, 2))
            if rng.random() < 0.5:
                u[0] = 0
            if rng.random() < 0.5:
                u[1] = 1
            what = "valid"
            lo, hi = b0 + u[0] * L, b0 + u[1] * L
            lo, hi = (b0 if u[0] == 0 else lo), (b1 if u[1] == 1 else hi)
            if bad:
                if w == "construct":
                    what = ["empty range", "reversed range"][int(rng.integers(2))]
                    b1 = b0 if what == "empty range" else b0 - L
                else:
                    what = ["before", "after", "both"][int(rng.integers(3))]
                    ex = L * 10.0 ** rng.uniform(-6, 0)
                    lo = b0 - ex if what != "after" else lo
                    hi = b1 + ex if what != "before" else hi
            t0, t1 = (lo, hi) if sg > 0 else (hi, lo)
            return tuple(map(np.float64, (b0, b1, t0, t1))) + (np.int64(rng.integers(2 ** 31)),), what, sg

        n = 24 if mon.tier == "quick" else 100
        for r in range(n):
            bad = r % 3 != 0
            a, what, sg = draw(bad)
            _judge(mon, (name, L_.__name__, what, sg), alone, tuple(map(jnp.asarray, a)), bad, "Brownian range: " + what, False, sg < 0, a=[float(x) for x in a])
        for r in range(n // 3):
            bad = r % 3 != 0
            els = [draw(False), draw(False), draw(bad)]
            args = tuple(jnp.asarray(np.stack([e[0][k] for e in els])) for k in range(5))
            what = [e[1] for e in els]
            _judge(mon, (name, L_.__name__, tuple(what), "batch"), batch, args, bad, f"Brownian range in a batch: {what}", True, any(e[2] < 0 for e in els))


# ------------------------------------------------------------------ Langevin terms that disagree
def run_uld(name, p, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    import jax.random as jr

    rng = _rng(mon, name)
    solver = getattr(dfx, p["s"])(0.01)

    def one(g1, g2, u1, u2, seed):
        bm = dfx.VirtualBrownianTree(0.0, 1.0, 1e-2, (3,), jr.key(seed), levy_area=dfx.SpaceTimeTimeLevyArea)
        terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g1, u1, lambda x, a: x), dfx.UnderdampedLangevinDiffusionTerm(g2, u2, bm))
        return dfx.diffeqsolve(terms, solver, 0.0, 1.0, 0.25, (jnp.ones(3), jnp.zeros(3))).ys

    alone, _ = _wrap(one)
    for r in range(18 if mon.tier == "quick" else 80):
        bad = r % 3 != 0
        g, u = rng.uniform(0.5, 2, 3), rng.uniform(0.5, 2, 3)
        g2, u2 = g.copy(), u.copy()
        what = "valid"
        if bad:
            what = ["gamma differs", "u differs"][int(rng.integers(2))]
            x = g2 if what[0] == "g" else u2
            j = int(rng.integers(3))
            x[j] = x[j] + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -0.5)
        _judge(mon, (name, what), alone, tuple(map(jnp.asarray, (g, g2, u, u2, 3))), bad, "Langevin terms: " + what, False, False, g=g, g2=g2, u=u, u2=u2)


# ------------------------------------------------------------------ data with unusable times
def run_interp(name, p, mon):
    import diffrax as dfx
    import jax.numpy as jnp

    rng = _rng(mon, name)
    w = p["w"]
    M = 6

    def one(ts, ys):
        if w == "linear":
            return dfx.linear_interpolation(ts, ys)
        if w == "rectilinear":
            return dfx.rectilinear_interpolation(ts, ys)
        return dfx.backward_hermite_coefficients(ts, ys)

    alone, batch = _wrap(one)

    def draw(bad):
        ts = np.cumsum(rng.uniform(0.1, 1, M)) + rng.uniform(-3, 3)
        what = "valid"
        if bad:
            what = ["repeated", "swapped", "reversed", "nan"][int(rng.integers(4))]
            j = int(rng.integers(0, M - 1))
            if what == "repeated":
                ts[j + 1] = ts[j]
            elif what == "swapped":
                ts[[j, j + 1]] = ts[[j + 1, j]]
            elif what == "reversed":
                ts = ts[::-1].copy()
            else:
                ts[rng.integers(M)] = np.nan
        elif rng.random() < 0.3:
            j = int(rng.integers(0, M - 2))
            ts[j + 1] = np.nextafter(ts[j], np.inf)
        return (ts, rng.normal(size=(M, 2))), what

    n = 30 if mon.tier == "quick" else 120
    for r in range(n):
        bad = r % 3 != 0
        a, what = draw(bad)
        _judge(mon, (name, what), alone, tuple(map(jnp.asarray, a)), bad, "interpolation times: " + what, False, False, ts=a[0])
    for r in range(n // 3):
        bad = r % 3 != 0
        els = [draw(bad), draw(False), draw(False)]
        args = tuple(jnp.asarray(np.stack([e[0][k] for e in els])) for k in range(2))
        _judge(mon, (name, els[0][1], "batch"), batch, args, bad, f"interpolation times in a batch: {els[0][1]}", True, False)


# ------------------------------------------------------------------ requests whose structure is wrong
GROUPS = ("saveat", "terms", "sde", "levy", "steps", "implicit0", "implicit1", "implicit2", "implicit3", "noerror", "adjoint", "autodiff", "event", "construct", "additive", "matrix0", "matrix1", "matrix2", "matrix3")


def run_static(name, p, mon):
    import equinox as eqx

    for sg in (1.0, -1.0):
        for key, bad, good in globals()["_st_" + p["g"].rstrip("0123")](p["g"], sg, mon):
            for what, f in (("invalid", bad), ("valid", good)):
                if f is None:
                    continue
                fs = f if isinstance(f, list) else [f]
                for j, g in enumerate(fs):
                    e = None
                    try:
                        (eqx.filter_jit(g)() if getattr(g, "execute", False) else eqx.filter_eval_shape(g))
                    except Exception as ex:   # noqa: BLE001
                        e = ex
                    mon.case((name, key, what, j, sg), nontrivial=True, request=str(key), direction=sg)
                    mon.event("backward", sg < 0)
                    if what == "invalid":
                        mon.event("static_invalid")
                        mon.ok(e is not None, "an invalid request raises", request=str(key), direction=sg, n=j)
                    else:
                        mon.event("static_valid")
                        mon.ok(e is None, "a valid request is accepted", request=str(key), direction=sg, n=j, error=repr(e)[:300])


def _solve(sg, terms=None, solver=None, dt0="auto", y0=None, **kw):
    """a request; t0=0, t1=sg"""
    import diffrax as dfx
    import jax.numpy as jnp
    terms = dfx.ODETerm(lambda t, y, a: -y) if terms is None else terms
    y0 = jnp.ones(2) if y0 is None else y0
    dt0 = sg * 0.1 if isinstance(dt0, str) else dt0
    return dfx.diffeqsolve(terms, dfx.Tsit5() if solver is None else solver, 0.0, sg, dt0, y0, **kw).ts


def _pid(**k):
    import diffrax as dfx
    return dfx.PIDController(rtol=1e-3, atol=1e-3, **k)


def _bm(levy="BrownianIncrement", n=2, unsafe=False):
    import diffrax as dfx
    import jax.random as jr
    lv = getattr(dfx, levy)
    return dfx.UnsafeBrownianPath((n,), jr.key(0), levy_area=lv) if unsafe else dfx.VirtualBrownianTree(-2.0, 2.0, 1e-2, (n,), jr.key(0), levy_area=lv)


def _sdeterm(levy="BrownianIncrement", unsafe=False, additive=False):
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx
    g = (lambda t, y, a: lx.DiagonalLinearOperator(jnp.ones(2) * (1 + t))) if additive else (lambda t, y, a: lx.DiagonalLinearOperator(0.1 * y))
    return dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -y), dfx.ControlTerm(g, _bm(levy, unsafe=unsafe)))


def _st_saveat(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    S, A, B = (lambda **k: lambda: _solve(sg, **k)), dfx.SaveAt, dfx.SubSaveAt
    ts = sg * np.array([0.2, 0.5])
    yield "unbounded steps, saving steps", [S(saveat=A(steps=True), max_steps=None), S(saveat=A(steps=3, t1=True), max_steps=None), S(saveat=A(subs=[B(t1=True), B(steps=2)]), max_steps=None), S(saveat=A(ts=ts, steps=True), max_steps=None, stepsize_controller=_pid())], \
        [S(saveat=A(ts=ts), max_steps=None), S(saveat=A(t0=True, t1=True), max_steps=None), S(saveat=A(steps=True)), S(saveat=A(subs=[B(t1=True), B(ts=ts)]), max_steps=None)]
    yield "unbounded steps, dense", [S(saveat=A(dense=True), max_steps=None), S(saveat=A(t1=True, dense=True), max_steps=None, stepsize_controller=_pid())], [S(saveat=A(t1=True, dense=True))]
    yield "nothing to save in a sub-request", [lambda: B(), lambda: B(ts=[]), lambda: A(ts=[]), S(saveat=lambda: 0) if False else (lambda: B(fn=lambda t, y, a: y))], [lambda: A(t1=True).subs.t1 * jnp.ones(1), lambda: A(ts=[0.5]).subs.ts]
    yield "both subs and direct requests", [lambda: A(subs=[B(t1=True)], t1=True), lambda: A(subs=B(t1=True), steps=True), lambda: A(subs=B(t1=True), ts=[0.1]), lambda: A(subs=B(t1=True), t0=True)], [S(saveat=A(subs=B(t1=True), dense=True))]
    yield "dense values that were not saved", [lambda: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 0.0, sg, sg * 0.1, 1.0).evaluate(sg * 0.5),
                                             lambda: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 0.0, sg, sg * 0.1, 1.0, saveat=A(steps=True)).derivative(sg * 0.5)], \
        [lambda: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 0.0, sg, sg * 0.1, 1.0, saveat=A(dense=True)).evaluate(sg * 0.5)]
    yield "complex times", [lambda: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 0j, sg, sg * 0.1, 1.0).ts, S(dt0=0.1 * sg + 0j), S(saveat=A(ts=jnp.array([0.1j])))], [S(dt0=np.float32(sg * 0.1))]


def _st_terms(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx
    O = dfx.ODETerm
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    yield "vector field of another structure", [S(O(lambda t, y, a: (y,))), S(O(lambda t, y, a: {"a": y, "b": y})), S(O(lambda t, y, a: y[0]), y0=(jnp.ones(2), jnp.ones(2))), S(O(lambda t, y, a: None))], \
        [S(), S(O(lambda t, y, a: (y[1], -y[0])), y0=(jnp.ones(2), jnp.ones(2)))]
    yield "vector field of another shape", [S(O(lambda t, y, a: jnp.ones(3))), S(O(lambda t, y, a: jnp.ones((2, 2)))), S(O(lambda t, y, a: jnp.ones(2)), y0=jnp.ones(()))], [S(O(lambda t, y, a: jnp.ones(()))), S(O(lambda t, y, a: -y), y0=jnp.ones(()))]
    con = lambda f, n=2, **k: dfx.MultiTerm(O(lambda t, y, a: -y), dfx.ControlTerm(f, _bm(n=n)))  # noqa: E731
    yield "diffusion of another shape", [S(con(lambda t, y, a: jnp.ones((3, 2))), solver=dfx.Euler()), S(con(lambda t, y, a: jnp.ones((2, 3))), solver=dfx.Heun()), S(con(lambda t, y, a: lx.DiagonalLinearOperator(jnp.ones(3))), solver=dfx.Euler()),
                                        S(con(lambda t, y, a: (jnp.ones((2, 2)),)), solver=dfx.Euler())], \
        [S(con(lambda t, y, a: jnp.ones((2, 2))), solver=dfx.Euler()), S(con(lambda t, y, a: jnp.ones((2, 3)), n=3), solver=dfx.Heun()), S(con(lambda t, y, a: lx.DiagonalLinearOperator(y)), solver=dfx.Euler())]
    yield "too many or too few terms", [S(dfx.MultiTerm(O(lambda t, y, a: -y), O(lambda t, y, a: -y), O(lambda t, y, a: -y)), solver=dfx.KenCarp3(), stepsize_controller=_pid()),
                                       S(dfx.MultiTerm(O(lambda t, y, a: -y)), solver=dfx.KenCarp3(), stepsize_controller=_pid()),
                                       S((O(lambda t, y, a: -y),) * 3, solver=dfx.SemiImplicitEuler(), y0=(jnp.ones(1), jnp.ones(1))),
                                       S((O(lambda t, y, a: -y),) * 2, solver=dfx.SemiImplicitEuler(), y0=(jnp.ones(1), jnp.ones(1), jnp.ones(1)))], \
        [S(dfx.MultiTerm(O(lambda t, y, a: -y), O(lambda t, y, a: -y)), solver=dfx.KenCarp3(), stepsize_controller=_pid()), S((O(lambda t, y, a: -y),) * 2, solver=dfx.SemiImplicitEuler(), y0=(jnp.ones(1), jnp.ones(1)))]


def _st_sde(g, sg, mon):
    import diffrax as dfx
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    T, U = _sdeterm(), _sdeterm(unsafe=True)
    clip = dfx.ClipStepSizeController(_pid(), store_rejected_steps=10)
    yield "adaptive Euler for an SDE", [S(T, dfx.Euler(), stepsize_controller=_pid()), S(T, dfx.Euler(), stepsize_controller=clip), S(dfx.ControlTerm(lambda t, y, a: y[:, None] * np.ones((1, 2)), _bm()), dfx.Euler(), stepsize_controller=_pid())], \
        [S(T, dfx.Euler()), S(T, dfx.Heun(), stepsize_controller=_pid()), S(T, dfx.Heun(), stepsize_controller=clip)]
    yield "adaptive steps over an unsafe path", [S(U, dfx.Heun(), stepsize_controller=_pid(), adjoint=a) for a in (dfx.ForwardMode(), dfx.DirectAdjoint())] + [S(U, dfx.Heun(), stepsize_controller=clip, adjoint=dfx.ForwardMode()), S(U, dfx.HalfSolver(dfx.Euler()), stepsize_controller=_pid(), adjoint=dfx.ForwardMode())], \
        [S(U, dfx.Heun(), adjoint=dfx.ForwardMode()), S(U, dfx.Euler(), adjoint=dfx.DirectAdjoint()), S(U, dfx.Euler(), dt0=None, stepsize_controller=dfx.StepTo(sg * np.linspace(0, 1, 5)), adjoint=dfx.ForwardMode())]
    yield "unsafe path with adjoints that revisit it", [S(U, dfx.Heun()), S(U, dfx.Heun(), adjoint=dfx.RecursiveCheckpointAdjoint(checkpoints=3)), S(U, dfx.Heun(), adjoint=dfx.BacksolveAdjoint())], [S(T, dfx.Heun()), S(T, dfx.Heun(), adjoint=dfx.BacksolveAdjoint())]
    yield "backsolve of an Ito solver", [S(T, s, adjoint=dfx.BacksolveAdjoint()) for s in (dfx.Euler(), dfx.ItoMilstein())] + [S(T, dfx.HalfSolver(dfx.Euler()), adjoint=dfx.BacksolveAdjoint())] * 0, \
        [S(T, s, adjoint=dfx.BacksolveAdjoint()) for s in (dfx.Heun(), dfx.EulerHeun(), dfx.StratonovichMilstein(), dfx.ReversibleHeun())] + [S(solver=dfx.Euler(), adjoint=dfx.BacksolveAdjoint())]


def _st_levy(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    rank = ["BrownianIncrement", "SpaceTimeLevyArea", "SpaceTimeTimeLevyArea"]
    for s, need, add in (("ShARK", 1, True), ("SRA1", 1, True), ("SlowRK", 1, False), ("SPaRK", 1, False), ("GeneralShARK", 1, False), ("SEA", 1, True)):
        for unsafe in (False, True):
            kw = dict(adjoint=dfx.ForwardMode()) if unsafe else {}
            yield ("Levy area", s, unsafe), [S(_sdeterm(rank[r], unsafe, add), getattr(dfx, s)(), **kw) for r in range(need)], [S(_sdeterm(rank[r], unsafe, add), getattr(dfx, s)(), **kw) for r in range(need, 3)]
    for s, need in (("ALIGN", 1), ("ShOULD", 2), ("QUICSORT", 2)):
        def uld(r):
            return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(1.0, 1.0, lambda x, a: x), dfx.UnderdampedLangevinDiffusionTerm(1.0, 1.0, _bm(rank[r])))
        yield ("Levy area", s), [S(uld(r), getattr(dfx, s)(0.01), y0=(jnp.ones(2), jnp.ones(2))) for r in range(need)], [S(uld(r), getattr(dfx, s)(0.01), y0=(jnp.ones(2), jnp.ones(2))) for r in range(need, 3)]


def _st_steps(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    grid = sg * np.linspace(0, 1, 5)
    yield "fixed steps without a step", [S(dt0=None), S(solver=dfx.Euler(), dt0=None, stepsize_controller=dfx.ConstantStepSize()), S(dt0=None, adjoint=dfx.DirectAdjoint())], [S(), S(dt0=None, stepsize_controller=_pid())]
    yield "step list and initial step", [S(stepsize_controller=dfx.StepTo(grid)), S(dt0=grid[1], stepsize_controller=dfx.StepTo(grid))], [S(dt0=None, stepsize_controller=dfx.StepTo(grid))]
    yield "malformed step list", [lambda: dfx.StepTo(np.ones(1)), lambda: dfx.StepTo(np.ones((2, 2))), lambda: dfx.StepTo(np.zeros(0)), lambda: dfx.StepTo(1.0)], [S(dt0=None, stepsize_controller=dfx.StepTo(sg * np.array([0.0, 1.0])))]
    C = dfx.ClipStepSizeController
    yield "clipping fixed steps", [lambda: C(dfx.ConstantStepSize(), step_ts=[0.5]), lambda: C(dfx.StepTo(grid), jump_ts=[0.5])], [S(stepsize_controller=C(_pid(), step_ts=[sg * 0.5])), S(stepsize_controller=C(C(_pid(), step_ts=[sg * 0.5]), jump_ts=[sg * 0.25]))]
    yield "no room for rejected steps", [lambda: C(_pid(), store_rejected_steps=0), lambda: C(_pid(), store_rejected_steps=-3)], [S(stepsize_controller=C(_pid(), store_rejected_steps=1))]
    yield "integer jump times", [lambda: C(_pid(), jump_ts=jnp.array([1, 2])), lambda: C(_pid(), jump_ts=[1])], [S(stepsize_controller=C(_pid(), jump_ts=jnp.array([sg * 0.5])))]
    yield "missing tolerances", [lambda: dfx.PIDController(rtol=None, atol=1e-3), lambda: dfx.PIDController(rtol=1e-3, atol=None), lambda: dfx.PIDController(), lambda: dfx.PIDController(rtol=1e-3)], [lambda: S(stepsize_controller=dfx.PIDController(rtol=1e-3, atol=0.0))()]


def _st_implicit(g, sg, mon):
    import diffrax as dfx
    import optimistix as optx
    O = dfx.ODETerm(lambda t, y, a: -y)
    grid = sg * np.linspace(0, 1, 5)
    full = [dfx.VeryChord(rtol=1e-4, atol=1e-4, norm=optx.max_norm), optx.Newton(rtol=1e-4, atol=1e-4)]
    tw = dfx.with_stepsize_controller_tols
    part = [tw(dfx.VeryChord)(), tw(optx.Newton)(), tw(optx.Chord)()]
    for n, s in enumerate(("ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3")):
        if n % 4 != int(g[-1]):
            continue
        T = dfx.MultiTerm(O, O) if s in ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3") else O
        C = getattr(dfx, s)
        S = lambda *a, **k: (lambda: _solve(sg, T, *a, **k))  # noqa: E731
        few = s in ("Kvaerno3", "ImplicitEuler", "KenCarp4")
        yield ("implicit tolerances", s), [S(C()), S(C(), dt0=None, stepsize_controller=dfx.StepTo(grid)), S(dfx.HalfSolver(C()))] + ([S(C(root_finder=r)) for r in part] if few else [S(C(root_finder=part[0]))]), \
            [S(C(), stepsize_controller=_pid()), S(C(root_finder=full[0])), S(dfx.HalfSolver(C()), stepsize_controller=_pid())] + ([S(C(root_finder=r), dt0=None, stepsize_controller=dfx.StepTo(grid)) for r in full] if few else [])


def _st_noerror(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    O = dfx.ODETerm(lambda t, y, a: -y)
    clip = lambda: dfx.ClipStepSizeController(_pid(), step_ts=[sg * 0.5])  # noqa: E731
    y2 = (jnp.ones(2), jnp.ones(2))
    st = "SpaceTimeTimeLevyArea"
    uld = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(1.0, 1.0, lambda x, a: x), dfx.UnderdampedLangevinDiffusionTerm(1.0, 1.0, _bm(st)))
    for s, T, y in (("Euler", O, None), ("LeapfrogMidpoint", O, None), ("SemiImplicitEuler", (O, O), y2), ("ItoMilstein", _sdeterm(), None), ("StratonovichMilstein", _sdeterm(), None), ("EulerHeun", _sdeterm(), None), ("GeneralShARK", _sdeterm(st), None), ("SlowRK", _sdeterm(st), None),
                    ("ShOULD", uld, y2), ("QUICSORT", uld, y2)):
        sv = getattr(dfx, s)(0.01) if s in ("ShOULD", "QUICSORT") else getattr(dfx, s)()
        S = lambda *a, **k: (lambda: _solve(sg, T, *a, y0=y, **k))  # noqa: E731
        half = [S(dfx.HalfSolver(sv), stepsize_controller=_pid())] if s in ("Euler", "SemiImplicitEuler", "EulerHeun") else []
        yield ("adaptive steps without an error estimate", s), [S(sv, stepsize_controller=_pid()), S(sv, stepsize_controller=clip())], [S(sv)] + half
    for s, T, y in (("SPaRK", _sdeterm(st), None), ("ShARK", _sdeterm(st, additive=True), None), ("SRA1", _sdeterm(st, additive=True), None), ("Tsit5", O, None), ("ReversibleHeun", O, None), ("ALIGN", uld, y2)):
        sv = getattr(dfx, s)(0.01) if s == "ALIGN" else getattr(dfx, s)()
        S = lambda *a, **k: (lambda: _solve(sg, T, *a, y0=y, **k))  # noqa: E731
        yield ("adaptive steps with an error estimate", s), None, [S(sv, stepsize_controller=_pid()), S(sv, stepsize_controller=clip())]


def _st_adjoint(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    A, B = dfx.SaveAt, dfx.SubSaveAt
    ts = sg * np.array([0.2, 0.5])
    I, K = dfx.ImplicitAdjoint(), dfx.BacksolveAdjoint()
    ev = dfx.Event(lambda t, y, args, **k: y[0] < 0.5)
    yield "implicit adjoint saving anything else", [S(adjoint=I, saveat=a) for a in (A(ts=ts), A(steps=True), A(t0=True, t1=True), A(t1=True, dense=True), A(subs=[B(t1=True)]), A(t0=True), A(t1=True, fn=lambda t, y, a: y[0]))], [S(adjoint=I), S(adjoint=I, stepsize_controller=_pid())]
    yield "backsolve saving steps or dense", [S(adjoint=K, saveat=a) for a in (A(steps=True), A(steps=2, t1=True), A(t1=True, dense=True), A(dense=True), A(subs=[B(t1=True)]), A(subs=(B(t1=True), B(ts=ts))), A(t1=True, fn=lambda t, y, a: y[0]), A(ts=ts, fn=lambda t, y, a: 2 * y))], \
        [S(adjoint=K, saveat=a) for a in (A(ts=ts), A(t1=True), A(t0=True, ts=ts, t1=True), A(subs=B(t1=True)))]
    yield "backsolve with an event", [S(adjoint=K, event=ev), S(adjoint=K, event=ev, stepsize_controller=_pid(), saveat=A(ts=ts))], [S(event=ev), S(adjoint=K)]
    O = dfx.ODETerm(lambda t, y, a: -y)
    yield "backsolve with several terms", [S((O, O), dfx.SemiImplicitEuler(), y0=(jnp.ones(1), jnp.ones(1)), adjoint=K)], [S((O, O), dfx.SemiImplicitEuler(), y0=(jnp.ones(1), jnp.ones(1)))]
    yield "backsolve with foreign options", [lambda: dfx.BacksolveAdjoint(saveat=A(t1=True)), lambda: dfx.BacksolveAdjoint(event=ev), lambda: dfx.BacksolveAdjoint(tolerance=1), lambda: dfx.BacksolveAdjoint(y0=1.0)], [S(adjoint=dfx.BacksolveAdjoint(solver=dfx.Dopri5(), dt0=-sg * 0.1, stepsize_controller=_pid(), max_steps=99))]


def _st_autodiff(g, sg, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    def f(adj, **kw):
        def fn(x):
            return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -a * y), dfx.Tsit5(), 0.0, sg, sg * 0.25, jnp.ones(2), x, adjoint=adj, **kw).ys.sum()
        return fn
    one = jnp.asarray(1.0)
    grad = lambda adj, **k: (lambda: jax.grad(f(adj, **k))(one))  # noqa: E731
    jvp = lambda adj, **k: (lambda: jax.jvp(f(adj, **k), (one,), (one,))[1])  # noqa: E731

    def ex(f):
        f.execute = True
        return f
    R, F, D, I, K = dfx.RecursiveCheckpointAdjoint, dfx.ForwardMode, dfx.DirectAdjoint, dfx.ImplicitAdjoint, dfx.BacksolveAdjoint
    yield "reverse mode through an unbounded solve", [grad(R(), max_steps=None), grad(D(), max_steps=None)], [grad(R(checkpoints=5), max_steps=None), grad(R()), grad(D()), grad(K(), max_steps=None)]
    yield "reverse mode through forward mode", [grad(F()), grad(F(), max_steps=None)], [jvp(F()), jvp(F(), max_steps=None)]
    yield "forward mode through reverse-only adjoints", [ex(jvp(R())), ex(jvp(K()))], [jvp(D()), jvp(D(), max_steps=None)]

    def through(adj, what):
        def fn(x):
            t0, t1 = (x * 0.0, sg) if what == "t0" else (0.0, sg * x)
            return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), t0, t1, sg * 0.25, jnp.ones(2), adjoint=adj).ys.sum()
        return lambda: jax.grad(fn)(one)

    def closure(adj):
        def fn(x):
            return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -x * y), dfx.Tsit5(), 0.0, sg, sg * 0.25, jnp.ones(2), adjoint=adj).ys.sum()
        return lambda: jax.grad(fn)(one)
    yield "backsolve of closed-over values", [closure(K())], [closure(R())]
    yield "times through the usual adjoint", None, [through(R(), "t0"), through(R(), "t1")]

    def unsafe(x):
        return dfx.diffeqsolve(_sdeterm(unsafe=True), dfx.Heun(), 0.0, sg, sg * 0.25, jnp.ones(2) * x, adjoint=dfx.DirectAdjoint()).ys.sum()
    yield "reverse mode over an unsafe path", [lambda: jax.grad(unsafe)(one)], [lambda: unsafe(one)]


def _st_event(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    import optimistix as optx
    E = dfx.Event
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    rf = optx.Newton(1e-5, 1e-5)
    c = lambda v: (lambda t, y, args, **k: v(y))  # noqa: E731
    flt, boo = c(lambda y: y[0] - 0.5), c(lambda y: y[0] < 0.5)
    yield "conditions that are not scalars", [S(event=E(c(v))) for v in (lambda y: y, lambda y: y < 0.5, lambda y: (y[0], y[1]), lambda y: None, lambda y: y[:1])] + [S(event=E({"a": boo, "b": c(lambda y: y)})), S(event=E(c(lambda y: y), rf), stepsize_controller=_pid())], \
        [S(event=E(flt)), S(event=E(boo)), S(event=E({"a": boo, "b": flt})), S(event=E(flt, rf), stepsize_controller=_pid()), S(event=E([flt, boo], rf))]
    yield "conditions that are neither boolean nor float", [S(event=E(c(lambda y: jnp.array(3)))), S(event=E(c(lambda y: (y[0] > 0.5).astype(jnp.int32)))), S(event=E([boo, c(lambda y: y[0] + 0j)]))], [S(event=E(c(lambda y: (y[0] > 0.5).astype(jnp.float32))))]
    yield "directions of another structure", [lambda: E([flt, boo], direction=[True]), lambda: E({"a": flt}, direction={"b": True}), lambda: E(flt, direction=[True]), lambda: E([flt, flt], direction=[True, 1.5]), lambda: E([flt, flt], direction=(True, False))], \
        [S(event=E([flt, boo], direction=[True, None])), S(event=E({"a": flt}, direction={"a": False})), S(event=E([flt, flt], direction=False)), S(event=E(flt, direction=True))]
    st = dfx.steady_state_event
    yield "steady state without tolerances", [S(event=E(st())), S(event=E(st(rtol=1e-3))), S(event=E(st(rtol=1e-3, atol=1e-3))), S(event=E(st(atol=1e-3, norm=optx.rms_norm))), S(dt0=None, event=E(st()), stepsize_controller=dfx.StepTo(sg * np.linspace(0, 1, 4)))], \
        [S(event=E(st(1e-3, 1e-3, optx.rms_norm))), S(event=E(st()), stepsize_controller=_pid()), S(event=E(st()), stepsize_controller=dfx.ClipStepSizeController(_pid(), step_ts=[sg * 0.5]))]
    import warnings

    def both():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return _solve(sg, event=E(boo), discrete_terminating_event=dfx.DiscreteTerminatingEvent(lambda s, **k: s.y[0] < 0.5))

    def old():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return _solve(sg, discrete_terminating_event=dfx.DiscreteTerminatingEvent(lambda s, **k: s.y[0] < 0.5))
    if hasattr(dfx, "DiscreteTerminatingEvent"):
        yield "two kinds of event", [both], [old]


def _st_construct(g, sg, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    k = jr.key(0)
    V, U = dfx.VirtualBrownianTree, dfx.UnsafeBrownianPath
    SD = jax.ShapeDtypeStruct
    yield "integer Brownian motion", [lambda: V(0.0, 1.0, 1e-2, SD((2,), jnp.int32), k), lambda: U(SD((2,), jnp.int32), k), lambda: V(0.0, 1.0, 1e-2, {"a": SD((), jnp.float32), "b": SD((2,), jnp.int32)}, k), lambda: U((SD((), jnp.float32), SD((), bool)), k)], \
        [lambda: V(0.0, 1.0, 1e-2, {"a": SD((), jnp.float32), "b": SD((2,), jnp.float64)}, k).evaluate(0.2), lambda: U(SD((2,), jnp.float32), k).evaluate(0.0, 0.3)]
    yield "empty Brownian range", [lambda: V(1.0, 1.0, 1e-2, (), k).evaluate(1.0), lambda: V(1.0, 0.0, 1e-2, (), k).evaluate(0.5)], None
    ts = jnp.arange(4.0)
    LI, CI = dfx.LinearInterpolation, dfx.CubicInterpolation
    co = lambda n, m=3: tuple(jnp.ones((n if i == m else 3, 2)) for i in range(4))  # noqa: E731
    yield "interpolation of mismatched lengths", [lambda: LI(ts, jnp.ones((3, 2))), lambda: LI(ts, (jnp.ones((4, 2)), jnp.ones(5))), lambda: LI(jnp.ones((2, 2)), jnp.ones((2, 2))), lambda: CI(ts, co(4, 0)), lambda: CI(ts, co(2, 1)), lambda: CI(ts, co(4, 2)), lambda: CI(ts, co(4, 3)), lambda: CI(ts, tuple(jnp.ones((4, 2)) for _ in range(4)))], \
        [lambda: LI(ts, jnp.ones((4, 2))).evaluate(0.5), lambda: CI(ts, co(3)).evaluate(0.5)]
    li, re, bh = dfx.linear_interpolation, dfx.rectilinear_interpolation, dfx.backward_hermite_coefficients
    yield "too few or shapeless times", [lambda: f(t, y) for f in (li, re, bh) for t, y in ((jnp.ones(1), jnp.ones((1, 2))), (jnp.ones((2, 2)), jnp.ones((2, 2))), (jnp.ones(()), jnp.ones((1, 2))))], \
        [lambda: li(ts, jnp.ones((4, 2))), lambda: re(ts, jnp.ones((4, 2))), lambda: bh(ts[:2], jnp.ones((2, 2)))]


def _st_additive(g, sg, mon):
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx
    bm = _bm("SpaceTimeTimeLevyArea")
    O = dfx.ODETerm(lambda t, y, a: -y)
    M = lambda f: dfx.MultiTerm(O, dfx.ControlTerm(f, bm))  # noqa: E731
    S = lambda *a, **k: (lambda: _solve(sg, *a, **k))  # noqa: E731
    for s in ("SEA", "SRA1", "ShARK"):
        sv = getattr(dfx, s)()
        yield ("state-dependent noise", s), [S(M(f), sv) for f in (lambda t, y, a: lx.DiagonalLinearOperator(y), lambda t, y, a: jnp.eye(2) * jnp.sin(y[0]), lambda t, y, a: lx.DiagonalLinearOperator(jnp.ones(2).at[1].add(0.1 * y[1] ** 2)))], \
            [S(M(f), sv) for f in (lambda t, y, a: lx.DiagonalLinearOperator(jnp.ones(2) * t), lambda t, y, a: jnp.eye(2), lambda t, y, a: jnp.ones((2, 2)) * jnp.sin(t))]
    for s in ("SPaRK", "SlowRK", "GeneralShARK"):
        yield ("state-dependent noise allowed", s), None, [S(M(lambda t, y, a: lx.DiagonalLinearOperator(y)), getattr(dfx, s)())]


def _st_matrix(g, sg, mon):
    """every solver against every kind of terms: which the documentation says it takes"""
    import warnings

    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx
    warnings.simplefilter("ignore")
    O = dfx.ODETerm(lambda t, y, a: -y)
    Om = dfx.ODETerm(lambda t, y, a: (-y[0], -y[1]))
    st = "SpaceTimeTimeLevyArea"
    y1, y2 = jnp.ones(2), (jnp.ones(2), jnp.ones(2))
    D, G = dfx.UnderdampedLangevinDriftTerm(1.0, 1.0, lambda x, a: x), dfx.UnderdampedLangevinDiffusionTerm(1.0, 1.0, _bm(st))
    add = lambda t, y, a: lx.DiagonalLinearOperator(jnp.ones(2))  # noqa: E731
    path = dfx.LinearInterpolation(jnp.linspace(-2, 2, 5), jnp.ones((5, 2)))
    K = {
        "ode": (O, y1), "ode-tree": (Om, y2), "control": (dfx.ControlTerm(lambda t, y, a: jnp.ones((2, 2)), path), y1),
        "ode+ode": (dfx.MultiTerm(O, O), y1), "ode+bm": (dfx.MultiTerm(O, dfx.ControlTerm(add, _bm())), y1), "ode+levy": (dfx.MultiTerm(O, dfx.ControlTerm(add, _bm(st))), y1),
        "bm+ode": (dfx.MultiTerm(dfx.ControlTerm(add, _bm(st)), O), y1), "pair": ((O, O), y2), "langevin": (dfx.MultiTerm(D, G), y2), "langevin-swapped": (dfx.MultiTerm(G, D), y2), "triple": (dfx.MultiTerm(O, O, O), y1),
        "list": ([O, O], y2), "drift-only": (D, y2), "levy-only": (dfx.ControlTerm(add, _bm(st)), y1), "function": (lambda t, y, a: -y, y1),
    }
    general = {"ode", "ode-tree", "control", "ode+ode", "ode+bm", "ode+levy", "bm+ode", "triple", "langevin", "langevin-swapped", "drift-only", "levy-only"}
    two = {"ode+ode"}
    srk, uld = {"ode+levy"}, {"langevin"}
    skip = {}
    tab = {}
    for s in ("Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ReversibleHeun", "LeapfrogMidpoint"):
        tab[s] = (getattr(dfx, s)(), general)
    for s in ("ImplicitEuler", "Kvaerno3", "Kvaerno5"):
        tab[s] = (getattr(dfx, s)(), {"ode", "ode-tree"})
        skip[s] = general - {"ode", "ode-tree"}
    for s in ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3"):
        tab[s] = (getattr(dfx, s)(), two)
        skip[s] = {"ode+bm", "ode+levy", "bm+ode", "langevin", "langevin-swapped"}
    tab["SemiImplicitEuler"] = (dfx.SemiImplicitEuler(), {"pair"})
    for s in ("EulerHeun", "ItoMilstein", "StratonovichMilstein"):
        tab[s] = (getattr(dfx, s)(), {"ode+bm", "ode+levy"})
        skip[s] = {"ode+ode", "langevin", "pair", "list"}
    for s in ("SEA", "SRA1", "ShARK", "SPaRK", "SlowRK", "GeneralShARK"):
        tab[s] = (getattr(dfx, s)(), srk)
        skip[s] = {"langevin"}
    for s in ("ALIGN", "ShOULD", "QUICSORT"):
        tab[s] = (getattr(dfx, s)(0.01), uld)
    for n, (s, (sv, ok)) in enumerate(tab.items()):
        if n % 4 != int(g[-1]):
            continue
        imp = isinstance(sv, dfx.AbstractImplicitSolver)
        for k, (T, y) in K.items():
            if k in skip.get(s, ()):
                continue
            f = lambda: _solve(sg, T, sv, y0=y, stepsize_controller=_pid() if imp else dfx.ConstantStepSize())  # noqa: E731
            yield ("solver and terms", s, k), None if k in ok else f, f if k in ok else None
