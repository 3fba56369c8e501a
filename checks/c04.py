"""C04: adaptive stepping accepts only steps within tolerance and obeys its limits."""
import numpy as np

PROPERTY = "C04"
RULE = ("one evaluation = one history of attempted steps (a real solve, or the real controller driven by a scripted error history), judged "
        "attempt by attempt; distinct = (configuration, accept/reject pattern); non-trivial = at least one acceptance and one rejection or limit hit")
ASSUMPTIONS = ["acceptance is not judged when the scaled error is within 1e-9 of one"]
MIN_EVENTS = {"attempts": 5000, "rejections": 1000, "dtmin_hits": 30, "dtmax_hits": 30, "nonfinite": 30, "initial_steps": 30, "tolerance_solves": 30}

NORMS = ["rms", "max", "l1"]


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 6
    for r in range(rep):
        i = 0
        for dtmin in (0, 1):
            for dtmax in (0, 1):
                for coeff in ("int", "float", "array"):
                    out.append((f"direct-{dtmin}{dtmax}-{coeff}-{r}", dict(kind="direct", dtmin=dtmin, dtmax=dtmax, coeff=coeff, norm=NORMS[(i + r) % 3], force=(i + r) % 2 == 0)))
                    i += 1
        for i, s in enumerate(["Tsit5", "Bosh3", "Heun", "Dopri5", "Dopri8", "Kvaerno3", "Kvaerno5", "KenCarp4", "ReversibleHeun", "Half(Tsit5)", "ImplicitEuler"]):
            out.append((f"solve-{s}-{r}", dict(kind="solve", solver=s, var=i + r)))
        for i in range(4):
            out.append((f"init-{i}-{r}", dict(kind="init", var=i)))
        for i, s in enumerate(["Tsit5", "Dopri8", "Bosh3", "Kvaerno5", "Heun"]):
            out.append((f"tol-{s}-{r}", dict(kind="tol", solver=s)))
        out.append((f"sde-{r}", dict(kind="sde")))
        out.append((f"user-order-{r}", dict(kind="uorder")))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def run(name, p, mon):
    {"direct": run_direct, "solve": run_solve, "init": run_init, "tol": run_tol, "sde": run_sde, "uorder": run_uorder}[p["kind"]](name, p, mon)


def np_norm(kind):
    return {"rms": lambda x: np.sqrt(np.mean(x ** 2)), "max": lambda x: np.max(np.abs(x)), "l1": lambda x: np.sum(np.abs(x)) / 3.0}[kind]


def jx_norm(kind):
    import jax.numpy as jnp
    import optimistix as optx
    from dv import rec
    return {"rms": optx.rms_norm, "max": optx.max_norm, "l1": lambda t: jnp.sum(jnp.abs(rec.flat(t))) / 3.0}[kind]


class Ref:
    """Independent reference of the documented controller."""

    def __init__(self, leaves, norm="rms", **k):
        self.__dict__.update(dict(dtmin=None, dtmax=None, force=True, factormin=0.2, factormax=10.0, safety=0.9, pc=0.0, ic=1.0, dc=0.0))
        self.__dict__.update(k)
        self.norm, self.leaves = np_norm(norm), leaves
        self.hist = [1.0, 1.0]
        self.atmin = False

    def step(self, t0, t1, y0, y1, err, order, keep_obs):
        """-> (scaled error, keep, next dt, fails)"""
        with np.errstate(all="ignore"):
            y1 = y1.copy()
            for a, b in self.leaves:
                if not np.isfinite(y1[a:b]).all():
                    y1[a:b] = y0[a:b]
            sc = self.norm(err / (self.atol + self.rtol * np.maximum(np.abs(y0), np.abs(y1))))
            within = bool(sc < 1)
            keep = within or (self.dtmin is not None and self.atmin)
            if abs(sc - 1) < 1e-9:
                keep = keep_obs
            inv = np.divide(1.0, sc)
            b1, b2, b3 = (self.pc + self.ic + self.dc) / order, -(self.pc + 2 * self.dc) / order, self.dc / order
            f = self.safety
            for b, e in ((b1, inv), (b2, self.hist[0]), (b3, self.hist[1])):
                if b != 0:
                    f = f * e ** b
            lo, hi = (1.0, self.factormax) if keep else (self.factormin, self.safety)
            f = min(max(f, lo), hi) if not np.isnan(f) else np.nan
            dt = (t1 - t0) * f
            capped = self.dtmax is not None and dt > self.dtmax
            if capped:
                dt = self.dtmax
            fails, border, hit = False, False, False
            if self.dtmin is not None:
                border = abs(dt - self.dtmin) < 1e-9 * self.dtmin
                fails = (not self.force) and dt < self.dtmin
                if self.atmin and f == 1.0:
                    dt = self.dtmin
                hit = self.atmin = bool(dt <= self.dtmin)
                dt = max(dt, self.dtmin)
            if inv == 0 or np.isinf(inv):
                inv = 1.0
            if keep:
                self.hist = [inv, self.hist[0]]
        return sc, keep, dt, fails, capped, hit, border


def run_direct(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    rng = _rng(mon, name)
    B, L, D = 48 if mon.tier == "quick" else 300, 50, 4
    par = dict(rtol=10 ** rng.uniform(-8, -1, B), atol=10 ** rng.uniform(-8, -1, B), factormin=rng.uniform(0.05, 0.6, B), factormax=rng.uniform(1.5, 12, B),
               safety=rng.uniform(0.5, 0.98, B), dtmin=10 ** rng.uniform(-4, -1, B), dtmax=10 ** rng.uniform(-0.9, 2, B), order=rng.choice([1.0, 1.5, 2, 3, 5, 8], B),
               dt0=10 ** rng.uniform(-3, 0, B), t0=rng.choice([0.0, -5.0, 100.0], B))
    ck = p["coeff"]
    if ck == "array":
        co = dict(pc=rng.uniform(0, 0.6, B) * rng.integers(0, 2, B), ic=rng.uniform(0.2, 1, B), dc=rng.uniform(-0.1, 0.2, B) * rng.integers(0, 2, B))
    else:
        c = [(0, 1, 0), (0, 1, 0)][0] if ck == "int" else [(0.4, 0.3, 0.0), (0.3, 0.4, 0.1), (0.0, 0.7, 0.05)][rng.integers(3)]
        co = dict(pc=np.full(B, c[0], float), ic=np.full(B, c[1], float), dc=np.full(B, c[2], float))
    y0 = rng.normal(size=(B, L, D)) * 10 ** rng.uniform(-3, 3, (B, L, 1))
    y1 = y0 + rng.normal(size=(B, L, D)) * 10 ** rng.uniform(-3, 3, (B, L, 1))
    mode = rng.integers(0, 4, B)[:, None, None]  # per-history behaviour of the error
    mag = 10 ** np.where(mode == 0, rng.uniform(-1, 0.5, (B, L, 1)), np.where(mode == 1, rng.uniform(-7, 7, (B, L, 1)), np.where(mode == 2, 3 * np.sin(np.arange(L)[None, :, None] * 0.7), rng.uniform(-0.05, 3, (B, L, 1)))))
    err = rng.normal(size=(B, L, D)) * mag * (par["atol"][:, None, None] + par["rtol"][:, None, None] * np.maximum(np.abs(y0), np.abs(y1)))
    sp = rng.uniform(size=(B, L))
    err[sp < 0.03] = 0.0
    err[(sp > 0.03) & (sp < 0.06)] = np.inf
    y1[(sp > 0.06) & (sp < 0.09), 1] = np.nan
    bad = (sp > 0.07) & (sp < 0.09)
    err[bad] = np.inf
    leaves = [(0, 3), (3, 4)]
    tree = lambda x: {"a": x[:3], "b": x[3]}

    def ctrl(q, c):
        kw = {}
        if p["dtmin"]:
            kw["dtmin"] = q["dtmin"]
        if p["dtmax"]:
            kw["dtmax"] = q["dtmax"]
        if ck == "array":
            kw.update(pcoeff=c["pc"], icoeff=c["ic"], dcoeff=c["dc"])
        elif ck == "float":
            kw.update(pcoeff=float(co["pc"][0]), icoeff=float(co["ic"][0]), dcoeff=float(co["dc"][0]))
        return dfx.PIDController(rtol=q["rtol"], atol=q["atol"], norm=jx_norm(p["norm"]), factormin=q["factormin"], factormax=q["factormax"],
                                 safety=q["safety"], force_dtmin=p["force"], **kw)

    @eqx.filter_jit
    def drive(par, co, y0, y1, err):
        def one(q, c, y0, y1, err):
            k = ctrl(q, c)
            term = dfx.ODETerm(lambda t, y, a: jax.tree_util.tree_map(lambda x: -x, y))
            tn, st = k.init(term, q["t0"], q["t0"] + 1, tree(y0[0]), q["dt0"], None, lambda *a: None, q["order"])

            def body(carry, x):
                t0, t1, st = carry
                a, b, e = x
                keep, n0, n1, jump, st, res = k.adapt_step_size(t0, t1, tree(a), tree(b), None, tree(e), q["order"], st)
                return (n0, n1, st), (t0, t1, keep, n0, n1, jump, res == dfx.RESULTS.successful, res == dfx.RESULTS.dt_min_reached)
            _, o = jax.lax.scan(body, (q["t0"], tn, jax.tree_util.tree_map(jnp.asarray, st)), (y0, y1, err))
            return tn, o
        return jax.vmap(one)(par, co, y0, y1, err)

    tn, o = drive(jax.tree_util.tree_map(jnp.asarray, par), jax.tree_util.tree_map(jnp.asarray, co), jnp.asarray(y0), jnp.asarray(y1), jnp.asarray(err))
    tn = np.asarray(tn)
    T0, T1, K, N0, N1, J, OK, MINR = map(np.asarray, o)
    for b in range(B):
        q = {k: float(v[b]) for k, v in par.items()}
        mon.case((p["dtmin"], p["dtmax"], ck, K[b].tobytes()), dict(rtol=q["rtol"], atol=q["atol"], norm=p["norm"], accepted=int(K[b].sum()), length=L), nontrivial=0 < K[b].sum() < L)
        want = q["dt0"]
        if p["dtmax"]:
            want = min(want, q["dtmax"])
        if p["dtmin"]:
            want = max(want, q["dtmin"])
        mon.close(tn[b] - q["t0"], want, "initial step limited to [dtmin, dtmax]", rtol=1e-9, atol=1e-13)
        ref = Ref(leaves, p["norm"], rtol=q["rtol"], atol=q["atol"], factormin=q["factormin"], factormax=q["factormax"], safety=q["safety"],
                  dtmin=q["dtmin"] if p["dtmin"] else None, dtmax=q["dtmax"] if p["dtmax"] else None, force=p["force"],
                  pc=co["pc"][b], ic=co["ic"][b], dc=co["dc"][b])
        replay(mon, ref, T0[b], T1[b], y0[b], y1[b], err[b], K[b], N0[b], N1[b], np.full(L, q["order"]), OK[b], MINR[b])
        mon.ok(not J[b].any(), "the controller reports no jump")


def replay(mon, ref, T0, T1, y0, y1, err, K, N0, N1, order, OK, MINR=None, clipped=None):
    for n in range(len(T0)):
        if not (np.isfinite(T0[n]) and np.isfinite(T1[n]) and T1[n] > T0[n]):
            break
        was_min = ref.atmin
        sc, keep, dt, fails, capped, hit, border = ref.step(T0[n], T1[n], y0[n], y1[n], err[n], order[n], bool(K[n]))
        mon.event("attempts")
        mon.event("rejections", not K[n])
        mon.event("dtmin_hits", hit)
        mon.event("dtmax_hits", capped)
        mon.event("forced", was_min and not sc < 1)
        mon.event("nonfinite", not np.isfinite(err[n]).all() or not np.isfinite(y1[n]).all())
        if not mon.ok(bool(K[n]) == keep, "step accepted exactly when within tolerance (or at the forced minimum)", n=n, scaled=sc, keep=bool(K[n]), want=keep):
            return
        ulp = 4 * np.spacing(max(abs(T0[n]), abs(T1[n])))
        mon.ok(N0[n] == (T1[n] if keep else T0[n]), "next attempt starts at the end (accepted) or again at the start (rejected)", n=n)
        if np.isnan(dt):
            mon.ok(not np.isfinite(dt), "unreachable")
            return
        if clipped is None:
            if not mon.close(N1[n] - N0[n], dt, "next step size follows the PID rule within its limits", rtol=1e-9, atol=ulp + 2 * np.spacing(abs(N1[n])), n=n, scaled=sc):
                return
        else:
            mon.le(N1[n] - N0[n], dt * (1 + 1e-9) + ulp + clipped, "next step size is at most that of the PID rule", n=n)
        if not border:
            mon.ok(bool(OK[n]) == (not fails), "minimum step size reported exactly when reached and not forced", n=n)
            if MINR is not None:
                mon.ok(bool(MINR[n]) == fails, "failure is reported as dt_min_reached", n=n)
        if not keep and not hit and not was_min and T1[n] > T0[n]:
            mon.ok(dt < T1[n] - T0[n], "a rejected step is retried with a smaller one", n=n)


def _stiff_args(rng, D, B):
    from dv import rec
    return rec.stack([rec.vf_args(rng, D, s) for s in np.linspace(0.5, 6.0, B)])


def run_solve(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    rng = _rng(mon, name)
    sname, v = p["solver"], p["var"]
    solver, kind, implicit, _ = rec.ode_solvers(fixed_tols=False)[sname]
    D, B, N = 3, 6, 150
    T0, T1 = [(0.0, 3.0), (2.0, -1.0), (10.0, 14.0)][v % 3]
    d = 1 if T1 > T0 else -1
    args = _stiff_args(rng, D, B)
    y0 = rec.stack([rec.y0_for(kind, rng, D) for _ in range(B)])
    hostile = v % 3 == 1 and kind == "single"
    terms = rec.norm_terms(kind, 1)
    if hostile:  # not defined on part of the space: attempts entering it must be rejected
        base = rec.vf
        terms = dfx.ODETerm(lambda t, y, a: jnp.where(jnp.sum(y ** 2) > 40.0, jnp.nan, base(t, y, a)))
    par = dict(rtol=10 ** rng.uniform(-6, -2, B), atol=10 ** rng.uniform(-7, -3, B), dtmin=10 ** rng.uniform(-3, -1.5, B), dtmax=rng.uniform(0.1, 0.8, B))
    use_min, use_max, force = v % 2 == 0, v % 3 != 2, v % 4 != 2
    norm = NORMS[v % 3]
    c = [(0, 1, 0), (0.3, 0.3, 0), (0.2, 0.4, 0.1), (0.1, 0.3, 0.0)][v % 4]
    dt0 = None if v % 2 else 0.2 * d

    @eqx.filter_jit
    def solve(y0, args, par):
        def one(y0, args, q):
            kw = dict(dtmin=q["dtmin"]) if use_min else {}
            if use_max:
                kw["dtmax"] = q["dtmax"]
            k = dfx.PIDController(rtol=q["rtol"], atol=q["atol"], norm=jx_norm(norm), pcoeff=c[0], icoeff=c[1], dcoeff=c[2], force_dtmin=force, **kw)
            s = dfx.diffeqsolve(terms, solver, T0, T1, dt0, y0, args, stepsize_controller=rec.record(k, N), max_steps=N, throw=False,
                                saveat=dfx.SaveAt(t1=True, controller_state=True))
            return s.controller_state, s.result == dfx.RESULTS.successful, s.result == dfx.RESULTS.dt_min_reached, s.result == dfx.RESULTS.max_steps_reached
        return jax.vmap(one)(y0, args, par)

    cs, ok, minr, maxr = solve(y0, args, jax.tree_util.tree_map(jnp.asarray, par))
    for b in range(B):
        log = rec.unlog(rec.unbatch(cs, b))
        n = len(log["t0"])
        q = {k: float(x[b]) for k, x in par.items()}
        mon.case((sname, log["keep"].tobytes()), dict(solver=sname, attempts=n, rejected=int((~log["keep"]).sum()), rtol=q["rtol"]), nontrivial=bool((~log["keep"]).any()))
        leaves = [(0, D)] if kind != "pair" else [(0, D), (D, 2 * D)]
        ref = Ref(leaves, norm, rtol=q["rtol"], atol=q["atol"], dtmin=q["dtmin"] if use_min else None, dtmax=q["dtmax"] if use_max else None, force=force, pc=c[0], ic=c[1], dc=c[2])
        replay(mon, ref, log["t0"], log["t1"], log["y0"], log["y1"], log["err"], log["keep"], log["tprev"], log["tnext"], log["eorder"], log["okay"])
        mon.ok((log["eorder"] == solver_eorder(solver)).all(), "the controller is given the solver's error order", got=log["eorder"][:1])
        fine = np.isfinite(log["t1"]) & np.isfinite(log["t0"])  # not after a forced acceptance of a non-finite state
        mon.ok(fine.all() or (use_min and force and hostile), "attempted times are finite")
        h = (log["t1"] - log["t0"])[fine]
        n = len(h)
        if use_max and n:
            mon.le(h.max(), q["dtmax"] * (1 + 1e-12) + 1e-12, "no attempt is longer than dtmax")
        if use_min and n > 1 and force:
            mon.ok((h[log["t1"][fine] != d * T1] >= q["dtmin"] * (1 - 1e-9) - 1e-12).all(), "no attempt but the last is shorter than dtmin")
        if minr[b]:
            mon.ok(use_min and not force, "dt_min_reached only if a minimum is set and not forced")
        kept = log["keep"]
        if not use_min or not force:
            # independent of the replay: every accepted step was within tolerance
            with np.errstate(all="ignore"):
                E = [np_norm(norm)(log["err"][i] / (q["atol"] + q["rtol"] * np.maximum(np.abs(log["y0"][i]), np.abs(log["y1"][i])))) for i in range(n) if kept[i]]
            fin = not use_min
            if fin and len(E):
                mon.le(max(E), 1 + 1e-9, "every accepted step is within tolerance")
        mon.ok(np.isfinite(log["y1"][kept]).all() or (use_min and force), "no non-finite state is accepted")
        mon.event("solves")


def solver_eorder(solver):
    import diffrax as dfx
    inner = solver.solver if isinstance(solver, dfx.HalfSolver) else solver
    known = {"Tsit5": 5, "Bosh3": 3, "Heun": 2, "Midpoint": 2, "Ralston": 2, "Dopri5": 5, "Dopri8": 8, "Kvaerno3": 3, "Kvaerno4": 4, "Kvaerno5": 5, "KenCarp3": 3, "KenCarp4": 4,
             "KenCarp5": 5, "Sil3": 2, "ReversibleHeun": 2, "ImplicitEuler": 2}
    e = known[type(inner).__name__]
    return e + 1 if isinstance(solver, dfx.HalfSolver) else e


def run_init(name, p, mon):
    """The automatic initial step follows from the problem (Hairer, Norsett & Wanner, II.4)."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    v = p["var"]
    sname = ["Tsit5", "Heun", "Kvaerno3", "Dopri8"][v]
    solver = getattr(dfx, sname)()
    T0, T1 = [(0.0, 1e3), (3.0, -1e3), (-2.0, 1e3), (0.0, -1e3)][v]
    d = 1 if T1 > T0 else -1
    D, B = 3, 12
    args = rec.stack([rec.vf_args(rng, D, s) for s in 10 ** rng.uniform(-3, 3, B)])
    y0 = rng.normal(size=(B, D)) * 10 ** rng.uniform(-2, 2, (B, 1))
    y0[0] = 0.0
    args["b"][1], args["A"][1], args["c"][1] = 0.0, 0.0, 0.0  # zero field
    args["A"][2], args["c"][2], args["w"][2] = 0.0, 0.0, 0.0
    rtol, atol = 10 ** rng.uniform(-8, -2, B), 10 ** rng.uniform(-8, -2, B)
    terms = dfx.ODETerm(rec.vf)
    dtmax = None if v != 3 else 0.05

    @eqx.filter_jit
    def solve(y0, args, rtol, atol):
        def one(y0, args, rtol, atol):
            k = dfx.PIDController(rtol=rtol, atol=atol, dtmax=dtmax)
            s = dfx.diffeqsolve(terms, solver, T0, T1, None, y0, args, stepsize_controller=rec.record(k, 1), max_steps=1, throw=False, saveat=dfx.SaveAt(t1=True, controller_state=True))
            fw = dfx.ODETerm(lambda t, y, a: d * rec.vf(d * t, y, a))
            tn, _ = k.init(fw, jnp.asarray(d * T0), jnp.asarray(d * T1), y0, None, args, solver.func, solver.error_order(fw))
            return s.controller_state[1]["init_tnext"], tn
        return jax.vmap(one)(y0, args, rtol, atol)

    insolve, got = map(np.asarray, solve(jnp.asarray(y0), args, jnp.asarray(rtol), jnp.asarray(atol)))
    order = solver_eorder(solver)
    for b in range(B):
        a = rec.unbatch(args, b)
        mon.case((sname, "init", b), dict(rtol=rtol[b], atol=atol[b], d=d))
        f = lambda s, y: d * np.asarray(rec.vf(d * s, jnp.asarray(y), a))
        s0 = d * T0
        sc = atol[b] + rtol[b] * np.abs(y0[b])
        rms = np_norm("rms")
        f0 = f(s0, y0[b])
        d0, d1 = rms(y0[b] / sc), rms(f0 / sc)
        h0 = 1e-6 if d0 < 1e-5 or d1 < 1e-5 else 0.01 * d0 / d1
        d2 = rms((f(s0 + h0, y0[b] + h0 * f0) - f0) / sc) / h0
        m = max(d1, d2)
        h1 = max(1e-6, h0 * 1e-3) if m <= 1e-15 else (0.01 / m) ** (1 / order)
        h = min(100 * h0, h1)
        if dtmax is not None:
            h = min(h, dtmax)
        # d2 is a difference quotient: allow for its rounding
        u = rms(1e-15 * np.abs(f0) / sc) / h0 + rms(1e-15 * np.abs(y0[b]) / sc) / h0
        rel = min(1.0, u / max(m, 1e-300) * 30) + 1e-6
        mon.event("initial_steps")
        mon.close(got[b] - s0, h, "automatic initial step is that of the standard algorithm", rtol=rel, atol=4 * np.spacing(abs(s0)) + 1e-15)
        mon.close(insolve[b] - s0, h, "automatic initial step in a solve is that of the standard algorithm", rtol=rel, atol=4 * np.spacing(abs(s0)) + 1e-15)
        mon.ok(0 < insolve[b] - s0 <= abs(T1 - T0), "automatic initial step advances")


def run_tol(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import scipy.integrate as si
    from dv import rec

    rng = _rng(mon, name)
    sname = p["solver"]
    solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[sname]
    tols = 10.0 ** np.arange(-3, {"Tsit5": -10, "Dopri8": -11, "Bosh3": -8, "Kvaerno5": -9, "Heun": -7}[sname], -1)
    M = len(tols)
    for k in range(3):
        D = 3
        args = rec.vf_args(rng, D, [0.7, 1.0, 1.5][k])
        args["A"] = args["A"] - 0.8 * np.eye(D)
        y0 = rng.normal(size=D)
        T0, T1 = [(0.0, 3.0), (1.0, -0.8), (20.0, 22.5)][k]
        ref = si.solve_ivp(lambda t, y: np.asarray(rec_vf_np(t, y, args)), (T0, T1), y0, method="DOP853", rtol=1e-13, atol=1e-14).y[:, -1]

        @eqx.filter_jit
        def solve(tol, y0, args):
            def one(tol):
                s = dfx.diffeqsolve(dfx.ODETerm(rec.vf), solver, T0, T1, None, y0, args, stepsize_controller=dfx.PIDController(rtol=tol, atol=tol), max_steps=20000, throw=False,
                                    adjoint=dfx.ForwardMode())
                return s.ys[-1], s.stats["num_accepted_steps"], s.result == dfx.RESULTS.successful
            return jax.vmap(one)(tol)
        y, n, ok = map(np.asarray, solve(jnp.asarray(tols), jnp.asarray(y0), jax.tree_util.tree_map(jnp.asarray, args)))
        err = np.abs(y - ref).max(axis=1) / (1 + np.abs(ref).max())
        for i, tol in enumerate(tols):
            mon.case((sname, "tol", k, i), dict(tol=tol, err=float(err[i]), steps=int(n[i])))
            mon.event("tolerance_solves")
            mon.ok(bool(ok[i]), "solve succeeds")
            grow = np.exp(min(4.0, abs(T1 - T0) * 1.0)) if T1 < T0 else 1.0
            mon.le(err[i], 60 * tol * grow + 2e-12, "global error is of the size of the tolerance", tol=tol)
        # tightening by orders of magnitude tightens the error
        for i in range(M - 2):
            mon.le(err[i + 2], max(0.3 * err[i], tols[i + 2] * 3) + 2e-12, "tightening the tolerance 100-fold tightens the error", tol=tols[i])
        mon.ok((np.diff(n) >= 0).all(), "tighter tolerances take at least as many steps", n=n)


def rec_vf_np(t, y, a):
    return a["A"] @ y + a["c"] * np.tanh(y[::-1]) + a["b"] * np.sin(a["w"] * t)


def run_sde(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    from dv import rec

    B, N = 6, 200
    terms = lambda bm: dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: -y), dfx.ControlTerm(lambda t, y, a: jnp.diag(0.3 + 0.5 * y), bm))
    for sname, levy, order in (("Heun", dfx.BrownianIncrement, 0.5), ("SPaRK", dfx.SpaceTimeLevyArea, 0.5)):
        solver = getattr(dfx, sname)()

        @eqx.filter_jit
        def solve(keys, rtol):
            def one(key, rtol):
                bm = dfx.VirtualBrownianTree(0.0, 1.0, 2.0 ** -12, (2,), key, levy_area=levy)
                k = dfx.PIDController(rtol=rtol, atol=rtol, dtmin=2.0 ** -9, pcoeff=0.1, icoeff=0.3)
                s = dfx.diffeqsolve(terms(bm), solver, 0.0, 1.0, 0.1, jnp.array([1.0, -0.5]), stepsize_controller=rec.record(k, N), max_steps=N, throw=False,
                                    saveat=dfx.SaveAt(t1=True, controller_state=True))
                return s.controller_state
            return jax.vmap(one)(keys, rtol)
        rtol = np.array([0.1, 0.05, 0.03, 0.02, 0.01, 0.3])
        cs = solve(jr.split(jr.PRNGKey(mon.seed), B), jnp.asarray(rtol))
        for b in range(B):
            log = rec.unlog(rec.unbatch(cs, b))
            mon.case((sname, log["keep"].tobytes()), dict(attempts=len(log["t0"]), rejected=int((~log["keep"]).sum())), nontrivial=bool((~log["keep"]).any()))
            ref = Ref([(0, 2)], "rms", rtol=rtol[b], atol=rtol[b], dtmin=2.0 ** -9, pc=0.1, ic=0.3)
            replay(mon, ref, log["t0"], log["t1"], log["y0"], log["y1"], log["err"], log["keep"], log["tprev"], log["tnext"], log["eorder"], log["okay"])
            mon.ok((log["eorder"] == order + 0.5).all(), "SDE error order is the strong order plus a half", got=log["eorder"][:1])


def run_uorder(name, p, mon):
    """error_order given by the user overrides the solver's; tolerances may be per-problem arrays."""
    import diffrax as dfx
    import jax.numpy as jnp
    from dv import rec
    rng = _rng(mon, name)
    for eo in (1.0, 3.5, 12.0):
        a = rec.vf_args(rng, 3, 2.0)
        y0 = rng.normal(size=3)
        k = dfx.PIDController(rtol=1e-5, atol=1e-7, error_order=eo, pcoeff=0.2, icoeff=0.5)
        s = dfx.diffeqsolve(dfx.ODETerm(rec.vf), dfx.Bosh3(), 0.0, 1.0, 0.3, jnp.asarray(y0), a, stepsize_controller=rec.record(k, 400), max_steps=400, throw=False,
                            saveat=dfx.SaveAt(t1=True, controller_state=True))
        log = rec.unlog(s.controller_state)
        mon.case(("uorder", eo), dict(attempts=len(log["t0"])))
        ref = Ref([(0, 3)], "rms", rtol=1e-5, atol=1e-7, pc=0.2, ic=0.5)
        replay(mon, ref, log["t0"], log["t1"], log["y0"], log["y1"], log["err"], log["keep"], log["tprev"], log["tnext"], np.full(len(log["t0"]), eo), log["okay"])
