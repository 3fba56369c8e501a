"""C01: accepted steps tile [t0, t1]; rejected steps leave no trace.

A recording controller (dv.rec) wraps the real one inside real `diffeqsolve`s and logs every
attempt; the offline oracle checks the log as a history.
"""
import numpy as np

PROPERTY = "C01"
RULE = ("one evaluation = one element of a batched diffeqsolve whose every attempted step is logged; "
        "distinct = (solver, controller, direction, dtype, number of accepted, pattern of accept/reject); "
        "non-trivial = at least two attempts")
ASSUMPTIONS = ["the recording controller passes the wrapped controller's decisions through unchanged",
               "solver.init/solver.step (public) are used to recompute accepted steps from scratch"]
MIN_EVENTS = {"attempts": 3000, "rejections": 300, "replayed_steps": 1500, "successful_solves": 200}

CTRLS = {
    "pid": dict(rtol=1e-4, atol=1e-6),
    "pid_tight": dict(rtol=1e-7, atol=1e-8),
    "pid_pcoeff": dict(rtol=1e-4, atol=1e-5, pcoeff=0.3, icoeff=0.4, dcoeff=0.05),
    "pid_loose": dict(rtol=1e-2, atol=1e-2, factormax=3.0, factormin=0.4, safety=0.8),
    "pid_dtmax": dict(rtol=1e-3, atol=1e-4, dtmax=0.11),
    "pid_dtmin": dict(rtol=1e-6, atol=1e-7, dtmin=0.05, force_dtmin=True),
}

INTERVALS = [(0.0, 1.5), (2.0, -0.5), (1000.0, 1001.0), (-3.0, 0.0), (0.0, 1e-3), (-1.0, -2.25),
             (0.25, 4.0), (1e6, 1e6 - 2.0)]


def tasks(tier, seed):
    from_names = ["Heun", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "Ralston", "Midpoint", "ImplicitEuler", "Kvaerno3",
                  "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3", "ReversibleHeun",
                  "Half(Heun)", "Half(Tsit5)", "Half(Euler)", "Half(SIE)"]
    allnames = from_names + ["Euler", "SemiImplicitEuler", "LeapfrogMidpoint"]
    out = []
    ck = list(CTRLS)
    rep = 1 if tier == "quick" else 4
    for r in range(rep):
        for i, s in enumerate(from_names):
            n = 2 if (tier == "quick" and s.startswith(("K", "Sil"))) else 3
            for j in range(n):
                c = ck[(i * 3 + j + r * 2) % len(ck)]
                iv = (i + 2 * j + r * 3) % len(INTERVALS)
                out.append((f"pid-{s}-{c}-{j}-{r}", dict(kind="pid", solver=s, ctrl=c, iv=iv, rep=r, dt="none" if (i + j) % 3 == 0 else ("big" if (i + j) % 3 == 1 else "small"),
                                                         clip=(i + j) % 4, f32=False)))
        for i, s in enumerate(["Tsit5", "Dopri5", "Bosh3", "Dopri8"]):
            out.append((f"f32-{s}-{r}", dict(kind="pid", solver=s, ctrl="pid", iv=[0, 1, 3, 5][(i + r) % 4], rep=r, dt="big", clip=0, f32=True)))
        for i, s in enumerate(allnames):
            out.append((f"script-{s}-{r}", dict(kind="script", solver=s, iv=(i + r) % len(INTERVALS), rep=r)))
        for i, s in enumerate(allnames):
            if tier == "quick" and s not in ("Euler", "Tsit5", "Kvaerno3", "SemiImplicitEuler", "LeapfrogMidpoint", "ReversibleHeun", "KenCarp4", "Half(Heun)", "Heun", "Dopri5"):
                continue
            out.append((f"const-{s}-{r}", dict(kind="const", solver=s, iv=(i + r) % len(INTERVALS), rep=r)))
            out.append((f"stepto-{s}-{r}", dict(kind="stepto", solver=s, iv=(i + 1 + r) % len(INTERVALS), rep=r)))
    for j, d in enumerate([-1, 1]):
        out.append((f"constlong-{d}", dict(kind="constlong", d=d)))
    for r in range(2 * rep):
        out.append((f"infinite-{r}", dict(kind="infinite", rep=r)))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def check_log(mon, log, T0, T1, y0flat, ts, ys, stats, max_steps, success, d, has_jump=False, forced=False):
    """T0 < T1 in the loop's orientation. The history oracle."""
    n = len(log["t0"])
    acc = log["keep"]
    # XLA may recompute a value in several fusions, differing in the last bits
    ulp = 8 * np.finfo(log["y0"].dtype).eps

    def same(a, b):
        return np.allclose(a, b, rtol=ulp, atol=ulp * np.max(np.abs(log["y0"]), initial=1e-30), equal_nan=True)

    mon.event("attempts", n)
    mon.event("rejections", int((~acc).sum()))
    mon.event("accepted", int(acc.sum()))
    mon.ok(n >= 1, "at least one attempt")
    # counts
    mon.equal(int(stats["num_steps"]), n, "stats num_steps equals attempts")
    mon.equal(int(stats["num_accepted_steps"]), int(acc.sum()), "stats num_accepted_steps")
    mon.equal(int(stats["num_rejected_steps"]), int((~acc).sum()), "stats num_rejected_steps")
    mon.ok(n <= max_steps, "attempts never exceed max_steps", n=n, max_steps=max_steps)
    # the history
    mon.equal(log["t0"][0], T0, "first attempt starts at t0")
    mon.equal(log["y0"][0], y0flat, "first attempt starts from y0")
    mon.ok(np.all(log["t1"] > log["t0"]), "every attempt advances strictly", t0=log["t0"], t1=log["t1"])
    mon.ok(np.all(log["t1"] <= T1), "no attempt passes the end", t1max=log["t1"].max(), T1=T1)
    for i in range(n - 1):
        if acc[i]:
            want_t = min(log["tprev"][i], T1)
            ok = log["t0"][i + 1] == want_t and (has_jump or log["t0"][i + 1] == log["t1"][i])
            ok = ok and same(log["y0"][i + 1], log["y1"][i])
            if not mon.ok(ok, "the next attempt starts where the accepted step ended", i=i,
                          t=(log["t1"][i], log["t0"][i + 1]), y=(log["y1"][i], log["y0"][i + 1])):
                break
        else:
            ok = log["t0"][i + 1] == log["t0"][i] and same(log["y0"][i + 1], log["y0"][i])
            if not mon.ok(ok, "after a rejection the state and time are unchanged", i=i):
                break
            if not mon.ok(log["t1"][i + 1] < log["t1"][i] or (forced and log["t1"][i + 1] <= log["t1"][i] + 1e-12), "after a rejection a smaller step is tried", i=i,
                          t1=(log["t1"][i], log["t1"][i + 1])):
                break
        # the controller's proposal is used unless it has to be cut at the end
        if log["tnext"][i] <= T1 - 1e-9 * max(1.0, abs(T1)):
            mon.equal(log["t1"][i + 1], log["tnext"][i], "the proposed next step is the one taken")
        elif acc[i] and log["tnext"][i] > T1:
            mon.equal(log["t1"][i + 1], T1, "a proposal past the end is cut to the end")
    if success:
        mon.ok(acc[-1], "the last attempt of a successful solve is accepted")
        mon.equal(log["t1"][-1], T1, "the last accepted step ends exactly at t1")
    # saved steps are the accepted ones
    k = int(acc.sum())
    if ts is not None and not has_jump:
        mon.equal(ts[:k] * d, log["t1"][acc], "saved step times are the ends of accepted steps")
        mon.close(ys[:k], log["y1"][acc], "saved step values are the accepted values", rtol=ulp, atol=ulp * np.max(np.abs(log["y0"]), initial=1e-30))
        mon.ok(np.all(np.isinf(ts[k:])), "nothing saved beyond the accepted steps")


def replay(mon, solver, kind, d, args, log, implicit, history, hist_tol=None, f32=False):
    """Recompute all accepted steps from scratch (fresh solver state)."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    terms = rec.norm_terms(kind, d)
    acc = log["keep"]
    k = int(acc.sum())
    if k == 0:
        return
    N = log["N"]
    D = log["y0"].shape[1]

    def unflat(v):
        if kind == "pair":
            return (v[: D // 2], v[D // 2:])
        return v

    pad = lambda x: np.concatenate([x[acc], np.repeat(x[acc][-1:], N - k, 0)]) if k < N else x[acc][:N]
    t0s, t1s, y0s = pad(log["t0"]), pad(log["t1"]), pad(log["y0"])
    f = _replay_fn(solver, kind, d, history, D)
    with jax.numpy_dtype_promotion("standard"):
        y1, err = f(jnp.asarray(t0s), jnp.asarray(t1s), jnp.asarray(y0s), args)
    y1, err = np.asarray(y1)[:k], np.asarray(err)[:k]
    want_e = log["err"][acc]
    sc = np.max(np.abs(log["y0"][acc]), axis=1, keepdims=True) + np.max(np.abs(log["y1"][acc]), axis=1, keepdims=True) + 1e-3
    tol = 2e-5 if f32 else (1e-8 if implicit else 1e-11)
    mon.event("replayed_steps", k)
    mon.close(log["y1"][acc] / sc, y1 / sc, "accepted step equals the solver's step from that time and state", atol=tol,
              times=(log["t0"][acc][:3], log["t1"][acc][:3]))
    if np.isfinite(want_e).all():
        mon.close(want_e / sc, err / sc, "error estimate equals that of a fresh step", atol=tol)


_CACHE = {}


def _replay_fn(solver, kind, d, history, D):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    key = (id(solver), kind, d, history, D)
    if key in _CACHE:
        return _CACHE[key][0]
    terms = rec.norm_terms(kind, d)
    unflat = (lambda v: (v[: D // 2], v[D // 2:])) if kind == "pair" else (lambda v: v)

    def one(t0, t1, y0, args):
        y0 = unflat(y0)
        st = solver.init(terms, t0, t1, y0, args)
        y1, e, _, _, _ = solver.step(terms, t0, t1, y0, args, st, False)
        y1 = rec.flat(y1)
        return y1, (jnp.zeros_like(y1) if e is None else rec.flat(e))

    def hist(t0s, t1s, y0s, args):
        st = solver.init(terms, t0s[0], t1s[0], unflat(y0s[0]), args)

        def body(st, x):
            t0, t1, y0 = x
            y1, e, _, st, _ = solver.step(terms, t0, t1, unflat(y0), args, st, False)
            y1 = rec.flat(y1)
            return st, (y1, jnp.zeros_like(y1) if e is None else rec.flat(e))

        return jax.lax.scan(body, st, (t0s, t1s, y0s))[1]

    if history:
        f = eqx.filter_jit(hist)
    else:
        f = eqx.filter_jit(lambda a, b, c, args: jax.vmap(lambda x, y, z: one(x, y, z, args))(a, b, c))
    _CACHE[key] = (f, solver)
    return f


def run(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    if p["kind"] == "constlong":
        return run_constlong(p, mon)
    if p["kind"] == "infinite":
        return run_infinite(p, mon)
    # a tight root finder, so that recomputed implicit steps are comparable
    solver, kind, implicit, history = rec.ode_solvers(fixed_tols=True)[p["solver"]]
    rng = _rng(mon, name)
    T0, T1 = INTERVALS[p["iv"]]
    d = 1 if T1 > T0 else -1
    L = abs(T1 - T0)
    D = 3
    B = 4
    N = 160 if p["kind"] == "pid" else 64
    ft = np.float32 if p.get("f32") else np.float64
    # time scale of the dynamics follows the interval so that every interval needs several steps
    sc = min(1.5 / L, 50.0) if L < 1 else 1.0
    argsb = rec.stack([rec.vf_args(rng, D, sc * s) for s in ([1.0, 2.0, 0.5, 4.0] if p["kind"] == "pid" else [1.0, 0.7, 0.5, 1.2])])
    y0b = rec.stack([rec.y0_for(kind, rng, D) for _ in range(B)])
    cast = lambda tr: jax.tree_util.tree_map(lambda x: jnp.asarray(x, ft), tr)
    argsb, y0b = cast(argsb), cast(y0b)
    saveat = dfx.SaveAt(steps=True, controller_state=(p["kind"] != "stepto"))
    terms = rec.norm_terms(kind, 1)
    if p["kind"] == "pid":
        low = p["solver"] in ("Heun", "Midpoint", "Ralston", "ImplicitEuler", "ReversibleHeun", "Half(Heun)", "Half(Euler)", "Half(SIE)", "Bosh3")
        kw = dict(CTRLS[p["ctrl"]])
        if low and kw["rtol"] < 1e-4:
            kw["rtol"], kw["atol"] = 1e-4, 1e-5
        if p["solver"] in ("ImplicitEuler", "Half(Euler)", "Half(SIE)"):
            kw["rtol"], kw["atol"] = max(kw["rtol"], 2e-3), max(kw["atol"], 2e-3)
        if "dtmax" in kw:
            kw["dtmax"] = 0.11 * min(L, 2.0)
        if "dtmin" in kw:
            kw["dtmin"] = 0.03 * min(L, 2.0)
        base = dfx.PIDController(**kw)
        if p["clip"] == 1:
            base = dfx.ClipStepSizeController(base, step_ts=jnp.asarray([T0 + 0.3 * (T1 - T0), T0 + 0.31 * (T1 - T0), T0 + 0.9 * (T1 - T0)], ft))
        elif p["clip"] == 2:
            base = dfx.ClipStepSizeController(base, store_rejected_steps=20)
        dt0 = {"none": None, "big": 0.7 * L * d, "small": 1e-3 * L * d}[p["dt"]]
        dt0 = None if dt0 is None else ft(dt0)
        ctrl = rec.record(base, N)
        extra = jnp.zeros(B)
        mk = lambda e: ctrl
    elif p["kind"] == "script":
        M = 23
        sizes = jnp.asarray(rng.uniform(0.2, 1.0, size=(B, M)))
        accept = jnp.asarray(rng.uniform(size=(B, M)) < np.array([0.5, 0.6, 0.8, 0.3])[:, None])
        accept = accept.at[:, 5].set(True).at[:, 6].set(True)
        dt = jnp.asarray(rng.uniform(0.1, 0.3, size=B) * L)
        mk = lambda e: rec.record(rec.Scripted(*e), N)
        extra = (sizes, accept, dt)
        dt0 = None
    elif p["kind"] == "const":
        dts = rng.uniform(0.03, 0.3, size=B) * L * d
        dts[0] = (T1 - T0) / 8  # divides exactly
        dts[1] = (T1 - T0) * 1.7  # a single step
        extra = jnp.asarray(dts)
        mk = lambda e: rec.record(dfx.ConstantStepSize(), N)
        dt0 = "extra"
    else:
        M = 12
        ts = np.sort(rng.uniform(0.05, 0.95, size=(B, M)), axis=1)
        ts = np.concatenate([np.zeros((B, 1)), ts, np.ones((B, 1))], axis=1)
        ts = T0 + ts * (T1 - T0)
        ts[:, 0], ts[:, -1] = T0, T1
        extra = jnp.asarray(ts)
        mk = lambda e: dfx.StepTo(e)
        dt0 = None
    t0a, t1a = ft(T0), ft(T1)

    @eqx.filter_jit
    def solve_all(y0b, argsb, extra):
        def f(y0, args, e):
            s = dfx.diffeqsolve(terms, solver, t0a, t1a, e if isinstance(dt0, str) else dt0, y0, args, saveat=saveat,
                                stepsize_controller=mk(e), max_steps=N, throw=False)
            return s.ts, jax.vmap(rec.flat)(s.ys), s.stats, dfx.is_okay(s.result), s.controller_state
        return jax.vmap(f)(y0b, argsb, extra)

    out = solve_all(y0b, argsb, extra)
    out = jax.tree_util.tree_map(lambda x: np.asarray(x) if eqx.is_array(x) else x, out)
    nsucc = 0
    for i in range(B):
        ts, ys, stats, okay, cs = out
        stats = {k: v[i] for k, v in stats.items() if k != "max_steps"}
        ts, ys, okay = ts[i], ys[i], bool(okay[i])
        y0f = np.asarray(rec.flat(rec.unbatch(y0b, i)))
        a0 = np.asarray(t0a) * d
        a1 = np.asarray(t1a) * d
        args_i = rec.unbatch(argsb, i)
        if p["kind"] == "stepto":
            mon.case((p["solver"], "stepto", d, i), dict(ts=np.asarray(extra)[i]))
            want = np.asarray(extra)[i]
            k = len(want) - 1
            mon.ok(okay, "prescribed steps succeed")
            mon.equal(ts[:k], want[1:], "prescribed times are stepped to exactly")
            mon.ok(np.all(np.isinf(ts[k:])), "no step beyond the prescribed ones")
            mon.equal([int(stats["num_steps"]), int(stats["num_accepted_steps"]), int(stats["num_rejected_steps"])], [k, k, 0], "counts of prescribed steps")
            mon.event("attempts", k)
            log = dict(t0=want[:-1] * d, t1=want[1:] * d, y0=np.concatenate([y0f[None], ys[: k - 1]]), y1=ys[:k],
                       keep=np.ones(k, bool), err=np.full((k, len(y0f)), np.nan), N=16)
            replay(mon, solver, kind, d, args_i, log, implicit, history)
            nsucc += okay
            continue
        log = rec.unlog(rec.unbatch(cs, i))
        pat = "".join("A" if x else "r" for x in log["keep"][:40])
        mon.case((p["solver"], p["kind"], p.get("ctrl"), d, p.get("f32"), pat), dict(t0=T0, t1=T1, steps=pat), nontrivial=len(pat) > 1)
        mon.ok(np.all(log["okay"]) or not okay, "a controller failure is not reported as success")
        check_log(mon, log, a0, a1, y0f, ts, ys, stats, N, okay, d, forced=p.get("ctrl") == "pid_dtmin")
        if p["kind"] == "const":
            dt = abs(float(extra[i]))
            k = len(log["t1"])
            want = a0 + dt * np.arange(1, k + 1)
            if k > 1:
                mon.close(log["t1"][:-1], want[:-1], "a constant step size uses dt0 for every step but the last",
                          atol=4e-15 * max(abs(a0), abs(a1)) + 1e-13 * dt)
            mon.ok(want[-1] >= a1 - 1e-9 * dt - 1e-14 * abs(a1), "no extra constant steps", k=k, dt=dt)
            mon.ok(k == 1 or want[-2] < a1 + 1e-12 * dt, "number of constant steps", k=k)
            # a last step far shorter than dt0 is only right if dt0 does not divide the interval
            q = (a1 - a0) / dt
            if abs(q - round(q)) < 1e-9:
                mon.equal(k, int(round(q)), "constant steps when dt0 divides the interval")
            mon.ok(okay, "constant steps succeed")
        nsucc += okay
        log["N"] = N
        if okay:
            replay(mon, solver, kind, d, args_i, log, implicit, history, f32=p.get("f32"))
    mon.event("successful_solves", nsucc)


def run_constlong(p, mon):
    """Many constant steps on one grid: no drift, no extra or missing step, exact end."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    d = p["d"]
    rng = _rng(mon, "constlong", d)
    N = 4096
    ks = np.concatenate([[1, 2, 3, 7, 10, 49, 93, 1000, 3000, 4096], rng.integers(5, 4000, size=30)])
    t0 = np.concatenate([[0.0] * 10, rng.choice([0.0, 1.0, -7.5, 123.4], size=30)]) * 1.0
    L = np.concatenate([np.ones(10), rng.uniform(0.1, 20.0, size=30)])
    t1 = t0 + d * L
    dt = (t1 - t0) / ks

    @eqx.filter_jit
    def f(t0, t1, dt):
        def g(t0, t1, dt):
            s = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.ones_like(y)), dfx.Euler(), t0, t1, dt, jnp.array(0.0),
                                max_steps=N + 2, saveat=dfx.SaveAt(steps=True), throw=False)
            return s.ts, s.ys, s.stats["num_steps"], dfx.is_okay(s.result)
        return jax.vmap(g)(t0, t1, dt)

    ts, ys, n, ok = map(np.asarray, f(jnp.asarray(t0), jnp.asarray(t1), jnp.asarray(dt)))
    for i in range(len(ks)):
        mon.case(("constlong", d, int(ks[i])), dict(t0=t0[i], t1=t1[i], dt=dt[i]))
        k = int(n[i])
        mon.event("attempts", k)
        mon.ok(ok[i], "long constant solve succeeds")
        mon.equal(k, int(ks[i]), "number of constant steps when dt0 divides the interval")
        mon.equal(ts[i][k - 1], t1[i], "constant steps end exactly at t1")
        want = t0[i] + dt[i] * np.arange(1, k + 1)
        mon.close(ts[i][:k], want, "constant step grid does not drift", atol=1e-14 * (abs(t0[i]) + abs(t1[i])) + 1e-14)
        mon.close(ys[i][k - 1], t1[i] - t0[i], "unit field integrates to the length", atol=1e-11 * (1 + L[i]))


def run_infinite(p, mon):
    """t1 = inf with an event: constant steps add up from t0."""
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp

    rng = _rng(mon, "inf", p["rep"])
    d = 1 if p["rep"] % 2 == 0 else -1
    t0, dt, stop = float(rng.uniform(-2, 2)), float(rng.uniform(0.05, 0.2)), 11

    @eqx.filter_jit
    def f():
        s = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Heun(), t0, d * jnp.inf, d * dt, jnp.array(1.0), max_steps=40,
                            saveat=dfx.SaveAt(steps=True), event=dfx.Event(lambda t, y, args, **kw: jnp.abs(t - t0) > (stop - 0.5) * dt), throw=False)
        return s.ts, s.ys, s.stats["num_steps"], dfx.is_event(s.result)

    ts, ys, n, ev = map(np.asarray, f())
    mon.case(("infinite", d), dict(t0=t0, dt=dt))
    k = int(n)
    mon.event("attempts", k)
    mon.ok(ev, "unbounded solve stopped by the event")
    mon.equal(k, stop, "steps until the event")
    mon.close(ts[:k], t0 + d * dt * np.arange(1, k + 1), "unbounded constant steps", atol=1e-13)
    z = d * dt
    mon.close(ys[:k], (1 - z + z * z / 2) ** np.arange(1, k + 1), "unbounded constant steps values", rtol=1e-12)
