"""C05: requested step and jump times are respected exactly."""
import zlib

import numpy as np

PROPERTY = "C05"
RULE = ("one evaluation = one solve with requested step/jump times or stored rejections, all attempts logged by two recorders (around and inside the "
        "clipping controller); distinct = (configuration, accept/reject pattern, requested times); non-trivial = a requested time inside the interval")
ASSUMPTIONS = ["requested times closer than a few floating point numbers to each other or to the ends are excluded from the exactness oracle",
               "a step time that coincides with a jump time is treated as the jump"]
MIN_EVENTS = {"attempts": 3000, "step_times_hit": 200, "jumps_crossed": 200, "rejected_revisited": 50, "rejections": 300, "poisoned_fields": 20}


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 5
    for r in range(rep):
        for i, s in enumerate(["Tsit5", "Bosh3", "Dopri5", "Dopri8", "Heun", "Midpoint", "ReversibleHeun", "Half(Tsit5)"]):
            out.append((f"script-{s}-{r}", dict(kind="script", solver=s, var=i + r)))
        for i, s in enumerate(["Kvaerno3", "Kvaerno5", "KenCarp4", "Sil3"]):
            out.append((f"script-{s}-{r}", dict(kind="script", solver=s, var=i + r, _cost=3)))
        for i, s in enumerate(["Tsit5", "Dopri8", "Kvaerno5", "Heun"]):
            out.append((f"pid-{s}-{r}", dict(kind="pid", solver=s, var=i + r)))
        for i in range(4):
            out.append((f"reject-{i}-{r}", dict(kind="reject", var=i)))
        for i in range(2):
            out.append((f"f32-{i}-{r}", dict(kind="script", solver="Tsit5" if i else "Bosh3", var=i + r, f32=True)))
        for v in (2, 3):
            out.append((f"script-half-{v}-{r}", dict(kind="script", solver="Half(Tsit5)", var=v + 3 * r)))
        for s, v in (("Tsit5", 3), ("Dopri5", 6)):
            out.append((f"script-split-{s}-{r}", dict(kind="script", solver=s, var=v, split=True)))
        out.append((f"sde-{r}", dict(kind="sde")))
        out.append((f"forms-{r}", dict(kind="forms")))
    return out


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def run(name, p, mon):
    {"script": run_script, "pid": run_pid, "reject": run_reject, "sde": run_sde, "forms": run_forms}[p["kind"]](name, p, mon)


def scripted():
    import diffrax as dfx
    import jax.numpy as jnp
    from typing import Any

    class ScriptedA(dfx.AbstractAdaptiveStepSizeController):
        sizes: Any
        accept: Any
        dt: Any
        rtol: Any = 1e-4
        atol: Any = 1e-4
        norm: Any = None

        def wrap(self, direction):
            return self

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + self.dt * self.sizes[0], jnp.array(1)

        def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, k):
            n = self.sizes.shape[0]
            keep = self.accept[(k - 1) % n]
            n0 = jnp.where(keep, t1, t0)
            h = jnp.where(keep, self.dt * self.sizes[k % n], (t1 - t0) * (0.4 + jnp.minimum(0.3, 0.1 * self.sizes[k % n])))
            return keep, n0, (n0 + h).astype(t0.dtype), False, k + 1, dfx.RESULTS.successful
    return ScriptedA


def make_times(rng, T0, T1, n, kind, eps):
    """n requested times; hostile layouts."""
    L = T1 - T0
    u = rng.uniform(0.02, 0.98, size=n)
    if kind == 1:  # clusters
        c = rng.uniform(0.1, 0.9, size=3)
        u = c[rng.integers(3, size=n)] + 10.0 ** rng.uniform(-6 if eps > 1e-10 else -12, -2, size=n)
    elif kind == 2:  # some outside
        u = rng.uniform(-0.5, 1.5, size=n)
    elif kind == 3:  # duplicates
        u = u[rng.integers(0, max(1, n // 2), size=n)]
    elif kind == 4:  # equidistant, resonant with the step sizes
        u = np.arange(1, n + 1) / (n + 1)
    t = T0 + L * u
    if kind == 5:  # start and end included
        t[0], t[-1] = T0, T1
    return t[rng.permutation(n)]


def near(a, b, eps, k=16):
    return abs(a - b) <= k * eps * max(abs(a), abs(b), 1e-300)


def judge(mon, outer, inner, S0, S1, step, jump, eps, dtype, clip_floor):
    """outer/inner logs in the solver's own time; step, jump sorted in that time."""
    t0, t1, keep = outer["t0"], outer["t1"], outer["keep"]
    n = len(t0)
    def nxt(x):  # (subnormal numbers are flushed to zero)
        return np.where(x == 0, np.finfo(dtype).tiny, np.nextafter(np.asarray(x, dtype), dtype(np.inf)))

    def prv(x):
        return np.where(x == 0, -np.finfo(dtype).tiny, np.nextafter(np.asarray(x, dtype), dtype(-np.inf)))
    mon.event("attempts", n)
    mon.event("rejections", int((~keep).sum()))
    ends, starts = t1[keep], t0[keep]
    if n == 0:
        return
    fin = ends[-1] >= S1 - 4 * eps * max(abs(S1), 1) if len(ends) else False
    reach = max(ends.max() if len(ends) else S0, S0)
    # jumps: no attempt contains one
    js = [j for j in np.unique(jump) if S0 < j < S1 and not near(j, S0, eps, 4) and not near(j, S1, eps, 4)]
    good_j = []
    for i, j in enumerate(js):
        if (i > 0 and near(js[i - 1], j, eps)) or (i + 1 < len(js) and near(js[i + 1], j, eps)):
            continue
        good_j.append(j)
        bad = (t0 <= j) & (t1 >= j) & (t1 < S1)
        bad |= (t0 <= j) & (t1 >= j) & (abs(S1 - j) > clip_floor)
        mon.ok(not bad.any(), "no attempted step contains or crosses a jump", jump=j, steps=[(float(a), float(b)) for a, b in zip(t0[bad], t1[bad])][:3])
        if reach > j and abs(S1 - j) > clip_floor:
            mon.ok(bool((ends == prv(j)).any()), "a step ends immediately before the jump", jump=j)
            mon.ok(bool((t0 == nxt(j)).any()), "the next step starts immediately after the jump", jump=j)
            mon.event("jumps_crossed")
    for x in np.unique(step):
        if not (S0 < x <= S1) or near(x, S0, eps, 4) or abs(S1 - x) <= clip_floor and x != S1:
            continue
        if any(near(x, j, eps) for j in js):
            continue
        bad = (t0 < x) & (t1 > x)
        # (one floating point number before a step time counts as at it)
        bad &= nxt(t0.astype(dtype)) != x
        mon.ok(not bad.any(), "no attempted step straddles a step time", t=x, steps=[(float(a), float(b)) for a, b in zip(t0[bad], t1[bad])][:3])
        if reach >= x:
            hit = (ends == x).any()
            if not hit and (ends == prv(x)).any():
                continue
            mon.ok(bool(hit), "an accepted step ends exactly at the step time", t=x)
            mon.event("step_times_hit")
    # clipping only shortens, and only to a requested time
    steps_u, jumps_u = np.unique(step), np.unique(jump)
    for i in range(n - 1):
        a, b = t0[i + 1], t1[i + 1]
        prop = inner["tnext"][i]
        cand = [prop]
        if prop <= a:  # (the proposal was skipped over along with the jump: the smallest step)
            cand.append(float(nxt(dtype(a))))
        s_after = steps_u[steps_u > a]
        if len(s_after):
            cand.append(s_after[0])
            if nxt(dtype(a)) == s_after[0] and len(s_after) > 1:
                cand.append(s_after[1])
        j_after = jumps_u[jumps_u > a]
        if len(j_after):
            cand.append(prv(j_after[0]))
        tol = 4 * eps * max(abs(b), abs(a))
        if b >= S1 - clip_floor:
            continue
        mon.le(b, prop + 3 * eps * max(abs(prop), abs(a)), "clipping never lengthens a step", n=i)
        lo = min(c for c in cand if c > a) if any(c > a for c in cand) else None
        if lo is not None and not near(lo, a, eps):
            mon.ok(b >= lo - tol or (inner["tnext"][i] > S1 - clip_floor), "steps are clipped only to requested times", n=i, end=b, allowed=cand)


def clip_floor_of(S0, S1, eps):
    return 4e-10 if eps < 1e-10 else 4e-6


def run_script(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    rng = _rng(mon, name)
    sname, v = p["solver"], p["var"]
    f32 = p.get("f32", False)
    dt_ = np.float32 if f32 else np.float64
    eps = np.finfo(dt_).eps
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    SA = scripted()
    B, N, D, L = (10 if mon.tier == "quick" else 32), 160, 2, 37
    nS, nJ = 6, 5
    T0, T1 = [(0.0, 2.0), (3.0, 1.5), (-10.0, -8.0), (0.5, -0.5)][v % 4]
    d = 1 if T1 > T0 else -1
    S0, S1 = d * T0, d * T1
    kinds = rng.integers(0, 6, size=(B, 2))
    st = np.stack([make_times(rng, T0, T1, nS, kinds[b, 0], eps) for b in range(B)]).astype(dt_)
    ju = np.stack([make_times(rng, T0, T1, nJ, kinds[b, 1], eps) for b in range(B)]).astype(dt_)
    for b in range(B):  # some coincide
        if b % 5 == 3:
            st[b, 0] = ju[b, 0]
    sizes = np.exp(rng.normal(size=(B, L)) * 0.8).astype(dt_)
    accept = rng.uniform(size=(B, L)) < np.array([1.0, 0.7, 0.45, 0.8, 0.9])[np.arange(B) % 5][:, None]
    accept[:, ::3] = True
    dt = (abs(T1 - T0) * np.array([0.05, 0.1, 0.3, 1.0, 0.02])[np.arange(B) % 5]).astype(dt_)
    c = rng.normal(size=(B, nJ + 1, D)).astype(dt_)
    mode = v % 3  # both, steps only, jumps only
    use_s, use_j = mode != 2, mode != 1
    if sname.startswith(("K", "S")) or f32:
        use_s = use_j = True

    def pw(t, y, a):
        js, cc = a
        js = jnp.sort(js)
        k = jnp.searchsorted(js, t)
        out = cc[k]
        if use_j:  # poisoned at the jumps themselves
            out = jnp.where(jnp.any(js == t), jnp.nan, out)
        return out
    zero = lambda t, y, a: jnp.zeros_like(y)
    if kind == "multi":
        terms = dfx.MultiTerm(dfx.ODETerm(pw), dfx.ODETerm(zero))
    else:
        terms = dfx.ODETerm(pw)
    # the ends must be clean for the poison
    ju = np.where(ju == dt_(T0), dt_(T0 - d * 0.3), ju)
    ju = np.where(np.abs(ju - dt_(T1)) < clip_floor_of(0, 0, eps), dt_(T1 + d * 0.3), ju)
    nested = v % 4 == 3 or "split" in p
    split = "split" in p or (zlib.crc32(sname.encode()) + mon.seed) % 2 == 0
    for b in range(4, B, 5):  # jumps directly at the start: it is already on the far side, just before, at, just after
        u = dt_(T0)
        if T0 == 0:
            break
        for _ in range(1 + (b // 5) % 2):
            u = np.nextafter(u, dt_(T1))
        ju[b, 0] = u
        if b % 2:
            st[b, 0] = u

    @eqx.filter_jit
    def solve(y0, st, ju, sizes, accept, dt, c):
        def one(y0, st, ju, sizes, accept, dt, c):
            inner = rec.RecA(SA(sizes, accept, dt), N, 1e-4, 1e-4, None)
            kw_s = dict(step_ts=st) if use_s else {}
            kw_j = dict(jump_ts=ju) if use_j else {}
            if nested and split and use_s and use_j:  # some of the times asked for inside, the others outside
                k = dfx.ClipStepSizeController(dfx.ClipStepSizeController(inner, **{q: t[:2] for q, t in {**kw_s, **kw_j}.items()}),
                                               **{q: t[2:] for q, t in {**kw_s, **kw_j}.items()})
            elif nested:
                k = dfx.ClipStepSizeController(dfx.ClipStepSizeController(inner, **kw_s), **kw_j)
            else:
                k = dfx.ClipStepSizeController(inner, **kw_s, **kw_j)
            s = dfx.diffeqsolve(terms, solver, jnp.asarray(T0, dt_), jnp.asarray(T1, dt_), None, y0, (ju, c), stepsize_controller=rec.RecA(k, N, 1e-4, 1e-4, None),
                                max_steps=N, throw=False, saveat=dfx.SaveAt(t1=True, controller_state=True))
            st_o, lo = s.controller_state
            st_i = st_o.inner_state
            if nested:
                st_i = st_i.inner_state
            return lo, st_i[1], s.ys, s.result == dfx.RESULTS.successful, s.result == dfx.RESULTS.max_steps_reached
        return jax.vmap(one)(y0, st, ju, sizes, accept, dt, c)

    y0 = rng.normal(size=(B, D)).astype(dt_)
    lo, li, ys, ok, maxr = solve(*map(jnp.asarray, (y0, st, ju, sizes, accept, dt, c)))
    cf = clip_floor_of(S0, S1, eps)
    for b in range(B):
        ol, il = rec.unlog((None, rec.unbatch(lo, b))), rec.unlog((None, rec.unbatch(li, b)))
        js = np.sort(d * ju[b]) if use_j else np.array([], dt_)
        ss = np.sort(d * st[b]) if use_s else np.array([], dt_)
        mon.case((sname, d, ol["keep"].tobytes(), int(kinds[b, 0]), int(kinds[b, 1])), dict(t0=T0, t1=T1, step_ts=st[b], jump_ts=ju[b], attempts=len(ol["t0"]), mode=mode), nontrivial=True)
        mon.ok(bool(ok[b]) or bool(maxr[b]), "solve succeeds (or runs out of its step budget)")
        mon.equal(ol["keep"], il["keep"], "clipping does not change acceptance")
        judge(mon, ol, il, S0, S1, ss, js, eps, dt_, cf)
        if use_j:
            mon.event("poisoned_fields")
            if sname != "Kvaerno5":
                mon.ok(np.isfinite(ol["y1"]).all(), "the vector field is never evaluated at a jump")
            # exact piecewise-linear solution at every attempt: nothing from before a jump is used after it
            uj = np.sort(ju[b])
            F = lambda t: piece(uj, c[b].astype(np.float64), t)
            sc = np.abs(c[b]).max() * abs(T1 - T0) + np.abs(y0[b]).max()
            tol = (2e-5 if f32 else 1e-11) * sc
            if sname != "Kvaerno5":  # (that method has a stage outside its step)
                want = ol["y0"] + F(d * ol["t1"]) - F(d * ol["t0"])
                mon.close(ol["y1"], want, "each step integrates the piece it is on exactly (nothing stale across a jump)", atol=tol)
            if kind == "single" and "Rev" not in sname and sname != "Kvaerno5":
                mon.le(np.abs(ol["err"]).max() if len(ol["err"]) else 0.0, tol, "no error estimate on piecewise constant fields")
            if ok[b] and sname != "Kvaerno5":
                mon.close(np.asarray(ys)[b, -1], y0[b] + F(np.array([T1]))[0] - F(np.array([T0]))[0], "piecewise-constant problem is solved exactly", atol=2 * tol)


def piece(j, c, t):
    """antiderivative of the piecewise constant field (values c[k] on piece k)"""
    t = np.atleast_1d(np.asarray(t, np.float64))
    out = np.zeros((len(t), c.shape[1]))
    base = 0.0
    edges = np.concatenate([[-1e3], j.astype(np.float64), [1e3]])
    for k in range(len(c)):
        out += c[k] * (np.clip(t, edges[k], edges[k + 1]) - edges[k])[:, None]
    return out


def run_pid(name, p, mon):
    """Piecewise-smooth problems under real adaptive control."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import scipy.integrate as si
    from dv import rec

    rng = _rng(mon, name)
    sname, v = p["solver"], p["var"]
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    B, N, D, nJ, nS = 4, 600, 2, 4, 3
    T0, T1 = [(0.5, 3.0), (2.0, -1.0)][v % 2]
    d = 1 if T1 > T0 else -1
    ju = np.stack([make_times(rng, T0, T1, nJ, [0, 2, 0, 4][b], 1e-16) for b in range(B)])
    st = np.stack([make_times(rng, T0, T1, nS, [0, 5, 1, 2][b], 1e-16) for b in range(B)])
    ju[B - 1, 0] = np.nextafter(T0, T1)  # a solve that starts where another one, clipped to the jump, ended
    A = rng.normal(size=(B, nJ + 1, D, D)) - 0.5 * np.eye(D)
    c = 5 * rng.normal(size=(B, nJ + 1, D))
    y0 = rng.normal(size=(B, D))
    tol = 1e-6 if sname != "Heun" else 1e-4
    TQ = 9
    tq = np.stack([np.sort(rng.uniform(size=TQ)) for _ in range(B)]) * (T1 - T0) + T0

    def pw(t, y, a):
        js, A, cc = a
        js = jnp.sort(js)
        k = jnp.searchsorted(js, t)
        return jnp.where(jnp.any(js == t), jnp.nan, A[k] @ y + cc[k] * jnp.cos(t))

    @eqx.filter_jit
    def solve(y0, st, ju, A, c, tq):
        def one(y0, st, ju, A, c, tq):
            inner = dfx.PIDController(rtol=tol, atol=tol)
            irec = rec.record(inner, N)
            k = dfx.ClipStepSizeController(irec, step_ts=st, jump_ts=ju)
            s = dfx.diffeqsolve(dfx.ODETerm(pw), solver, T0, T1, None, y0, (ju, A, c), stepsize_controller=rec.RecA(k, N, tol, tol, inner.norm), max_steps=N, throw=False,
                                saveat=dfx.SaveAt(ts=tq, controller_state=True))
            st_o, lo = s.controller_state
            return lo, st_o.inner_state[1], s.ys, s.result == dfx.RESULTS.successful
        return jax.vmap(one)(y0, st, ju, A, c, tq)

    lo, li, ys, ok = solve(*map(jnp.asarray, (y0, st, ju, A, c, tq)))
    for b in range(B):
        ol, il = rec.unlog((None, rec.unbatch(lo, b))), rec.unlog((None, rec.unbatch(li, b)))
        mon.case((sname, "pid", d, ol["keep"].tobytes()), dict(jumps=ju[b], steps=st[b], attempts=len(ol["t0"])))
        mon.ok(bool(ok[b]), "solve succeeds")
        mon.event("poisoned_fields")
        judge(mon, ol, il, d * T0, d * T1, np.sort(d * st[b]), np.sort(d * ju[b]), 2.3e-16, np.float64, clip_floor_of(0, 0, 1e-16))
        js = np.sort(ju[b])
        inside = [j for j in js if min(T0, T1) < j < max(T0, T1)]
        knots = [T0] + sorted(inside, reverse=d < 0) + [T1]
        y = y0[b]
        for a, e in zip(knots[:-1], knots[1:]):
            if abs(e - a) < 1e-14:
                continue
            k = np.searchsorted(js, 0.5 * (a + e))
            sol = si.solve_ivp(lambda t, y: A[b, k] @ y + c[b, k] * np.cos(t), (a, e), y, rtol=1e-12, atol=1e-12, dense_output=True, method="DOP853")
            sel = (tq[b] - a) * d >= 0
            sel &= (tq[b] - e) * d <= 0
            sc = np.abs(sol.y).max() + 1
            for i in np.flatnonzero(sel):
                mon.le(np.abs(np.asarray(ys)[b, i] - sol.sol(tq[b, i])).max(), 400 * tol * sc, "piecewise-smooth problem is solved to tolerance", t=tq[b, i])
            y = sol.y[:, -1]
        # steps near a jump are not reduced: a jump costs no cascade of rejections
        rej = int((~ol["keep"]).sum())
        if sname != "Kvaerno5":
            mon.le(rej, 8 * (len(inside) + 2), "jumps are crossed without a cascade of rejected steps")


def run_reject(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    rng = _rng(mon, name)
    v = p["var"]
    SA = scripted()
    B, N, L = (12 if mon.tier == "quick" else 48), 200, 41
    T0, T1 = [(0.0, 2.0), (3.0, 1.5), (-10.0, -8.0), (0.5, -0.5)][v % 4]
    d = 1 if T1 > T0 else -1
    cap = [3, 6, 20, 4][v]
    acc = rng.uniform(size=(B, L)) < np.linspace(0.3, 0.95, B)[:, None]
    acc[:, 0] |= True
    sizes = np.exp(rng.normal(size=(B, L)))
    dt = abs(T1 - T0) * rng.choice([0.05, 0.2, 0.5], size=B)
    st = np.stack([make_times(rng, T0, T1, 3, 0, 1e-16) for b in range(B)])
    ju = np.stack([make_times(rng, T0, T1, 3, 0, 1e-16) for b in range(B)])
    both = v % 2 == 0

    @eqx.filter_jit
    def solve(sizes, acc, dt, st, ju):
        def one(sizes, acc, dt, st, ju):
            inner = rec.RecA(SA(sizes, acc, dt), N, 1e-4, 1e-4, None)
            kw = dict(step_ts=st, jump_ts=ju) if both else {}
            k = dfx.ClipStepSizeController(inner, store_rejected_steps=cap, **kw)
            s = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Bosh3(), T0, T1, None, jnp.array([1.0]), stepsize_controller=rec.RecA(k, N, 1e-4, 1e-4, None), max_steps=N, throw=False,
                                saveat=dfx.SaveAt(t1=True, controller_state=True))
            st_o, lo = s.controller_state
            return lo, st_o.inner_state[1], s.result == dfx.RESULTS.successful, s.result == dfx.RESULTS.max_steps_rejected, s.result == dfx.RESULTS.max_steps_reached
        return jax.vmap(one)(sizes, acc, dt, st, ju)
    lo, li, ok, rejr, maxr = solve(*map(jnp.asarray, (sizes, acc, dt, st, ju)))
    for b in range(B):
        ol, il = rec.unlog((None, rec.unbatch(lo, b))), rec.unlog((None, rec.unbatch(li, b)))
        t0, t1, keep = ol["t0"], ol["t1"], ol["keep"]
        mon.case(("reject", v, keep.tobytes()), dict(cap=cap, attempts=len(t0), rejected=int((~keep).sum())), nontrivial=bool((~keep).any()))
        mon.event("attempts", len(t0))
        mon.event("rejections", int((~keep).sum()))
        stack, overflow = [], False
        S1 = d * T1
        for i in range(len(t0)):
            # an outstanding rejected location is never stepped over
            if stack:
                mon.ok(t1[i] <= stack[-1], "a rejected location is not stepped over", n=i, location=stack[-1], end=t1[i])
            if stack and t1[i] == stack[-1]:
                stack.pop()
                if keep[i]:
                    mon.event("rejected_revisited")
            if not keep[i]:
                stack.append(t1[i])
                overflow |= len(stack) > cap
            if overflow:
                break
        if ok[b]:
            mon.ok(not stack, "every rejected location was stepped to before the end", left=stack[:3])
            mon.ok(not overflow, "storage overflow is not reported as success")
        if overflow:
            mon.event("overflows")
            mon.ok(bool(rejr[b]), "too many consecutive rejections are reported as such", ok=bool(ok[b]), maxr=bool(maxr[b]))
        else:
            mon.ok(not bool(rejr[b]), "no spurious report of too many rejections", stack=len(stack), cap=cap)
        if both and not overflow:
            judge_mixed(mon, ol, d * st[b], d * ju[b], d * T0, S1)


def judge_mixed(mon, ol, st, ju, S0, S1):
    t0, t1 = ol["t0"], ol["t1"]
    reach = t1[ol["keep"]].max() if ol["keep"].any() else S0
    for j in ju:
        mon.ok(not ((t0 <= j) & (t1 >= j)).any(), "no attempted step contains or crosses a jump", jump=j)
    for x in st:
        mon.ok(not ((t0 < x) & (t1 > x)).any(), "no attempted step straddles a step time", t=x)
        if reach >= x:
            mon.ok(bool((t1[ol["keep"]] == x).any()), "an accepted step ends exactly at the step time", t=x)
            mon.event("step_times_hit")


def run_sde(name, p, mon):
    """Stored rejections and step times in a real adaptive SDE solve."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    from dv import rec
    B, N = 6, 400
    st = np.array([0.1, 0.333, 0.9])

    @eqx.filter_jit
    def solve(keys):
        def one(key):
            bm = dfx.VirtualBrownianTree(0.0, 1.0, 2.0 ** -12, (2,), key, levy_area=dfx.SpaceTimeLevyArea)
            terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -y), dfx.ControlTerm(lambda t, y, a: jnp.array([[0.3 * y[1], 1.0], [1.0, 0.8 * y[0]]]), bm))
            k = dfx.ClipStepSizeController(dfx.PIDController(rtol=0.03, atol=0.03, dtmin=2.0 ** -8, pcoeff=0.1, icoeff=0.3), step_ts=jnp.asarray(st), store_rejected_steps=40)
            s = dfx.diffeqsolve(terms, dfx.SPaRK(), 0.0, 1.0, 0.2, jnp.array([1.0, -0.5]), stepsize_controller=rec.RecA(k, N, 0.03, 0.03, None), max_steps=N, throw=False,
                                saveat=dfx.SaveAt(t1=True, controller_state=True))
            return s.controller_state[1], s.result == dfx.RESULTS.successful
        return jax.vmap(one)(keys)
    lo, ok = solve(jr.split(jr.PRNGKey(mon.seed + 7), B))
    for b in range(B):
        ol = rec.unlog((None, rec.unbatch(lo, b)))
        t0, t1, keep = ol["t0"], ol["t1"], ol["keep"]
        mon.case(("sde", keep.tobytes()), dict(attempts=len(t0), rejected=int((~keep).sum())), nontrivial=bool((~keep).any()))
        mon.ok(bool(ok[b]), "solve succeeds")
        mon.event("attempts", len(t0))
        mon.event("rejections", int((~keep).sum()))
        for r in np.unique(t1[~keep]):
            mon.ok(bool((t1[keep] == r).any()), "every rejected location is later stepped to", t=r)
            mon.event("rejected_revisited")
        for x in st:
            mon.ok(bool((t1[keep] == x).any()), "an accepted step ends exactly at the step time", t=x)
            mon.event("step_times_hit")


def run_forms(name, p, mon):
    """All the ways of passing times: list, tuple, unsorted, array, through PIDController."""
    import diffrax as dfx
    import jax.numpy as jnp
    from dv import rec
    base = lambda: dfx.PIDController(rtol=1e-3, atol=1e-3)
    S, J = [0.7, 0.2, 0.45], [0.81, 0.33]
    forms = {"list": dfx.ClipStepSizeController(base(), step_ts=S, jump_ts=J), "tuple": dfx.ClipStepSizeController(base(), step_ts=tuple(S), jump_ts=tuple(J)),
             "array": dfx.ClipStepSizeController(base(), step_ts=jnp.array(S), jump_ts=jnp.array(J)), "np": dfx.ClipStepSizeController(base(), step_ts=jnp.asarray(np.array(S)), jump_ts=jnp.asarray(np.array(J))),
             "pid": dfx.PIDController(rtol=1e-3, atol=1e-3, step_ts=S, jump_ts=J),
             "nested": dfx.ClipStepSizeController(dfx.ClipStepSizeController(base(), step_ts=S[:2]), step_ts=S[2:], jump_ts=J)}
    for f, k in forms.items():
        for T0, T1 in ((0.0, 1.0), (1.0, 0.0)):
            d = 1 if T1 > T0 else -1
            mon.case(("forms", f, d))
            s = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.where(jnp.any(t == jnp.array(J)), jnp.nan, -y)), dfx.Tsit5(), T0, T1, None, jnp.array([1.0]), stepsize_controller=rec.RecA(k, 64, 1e-3, 1e-3, None),
                                max_steps=64, saveat=dfx.SaveAt(t1=True, controller_state=True))
            ol = rec.unlog(s.controller_state)
            judge_mixed(mon, ol, d * np.array(S), d * np.array(J), d * T0, d * T1)
            for j in d * np.array(J):
                mon.ok(bool((ol["t1"] == np.nextafter(j, -np.inf)).any() and (ol["t0"] == np.nextafter(j, np.inf)).any()), "stepped to just before and from just after the jump", jump=j)
                mon.event("jumps_crossed")
            mon.ok(np.isfinite(np.asarray(s.ys)).all(), "the vector field is never evaluated at a jump")
