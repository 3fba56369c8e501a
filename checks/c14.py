"""C14: a solve split at a step and resumed continues identically.

A recorded solve gives the reference history. The same solve is cut at accepted steps (by its final time) or after any attempt (by its
step budget), resumed from what it saved, and everything the pieces return is put side by side with the reference. The solver is also
stepped by hand over the recorded attempts.
"""
import zlib

import numpy as np

PROPERTY = "C14"
RULE = ("one evaluation = one split (or chain of splits, omitted cache, or hand-stepped history) of a recorded solve; distinct = (configuration, "
        "direction, split points, what was passed on); non-trivial = at least one step before and one after the split")
ASSUMPTIONS = ["accept/reject decisions are not within rounding of the threshold (the data are random)",
               "split points just before a jump resume just after it, which is where the uninterrupted solve resumes"]
MIN_EVENTS = {"splits": 150, "chains": 25, "resumed_steps": 2500, "hand_steps": 250, "cache_omitted": 15, "budget_splits": 12, "budget_splits_rejected": 6,
              "splits_at_jump": 3, "splits_after_rejection": 15, "memory_mattered": 4, "args_changed": 4}

# name: solver, controller, clip (s step times, j jump times, r revisit rejected), caches that may be omitted
CFG = {
    "tsit5-pid": dict(s="Tsit5", c="pid", cache=("solver",)),
    "dopri5-i-jump": dict(s="Dopri5", c="i", clip="sj", cache=("solver", "controller", "both")),
    "dopri8-pi": dict(s="Dopri8", c="pi", cache=("solver",)),
    "bosh3-pid-clip": dict(s="Bosh3", c="pid", clip="sjr", cache=("solver",)),
    "heun-i": dict(s="Heun", c="i", cache=("both",)),
    "ralston-dtmin": dict(s="Ralston", c="pid", dtmin=True),
    "midpoint-const": dict(s="Midpoint", c="const", cache=("solver",)),
    "tsit5-stepto": dict(s="Tsit5", c="stepto"),
    "euler-const": dict(s="Euler", c="const"),
    "kvaerno3-i-jump": dict(s="Kvaerno3", c="i", clip="j", cache=("both",)),
    "kvaerno5-pid": dict(s="Kvaerno5", c="pid", cache=("solver",)),
    "kencarp4-pi": dict(s="KenCarp4", c="pi", cache=("solver",)),
    "sil3-pid": dict(s="Sil3", c="pid"),
    "impeuler-pid": dict(s="ImplicitEuler", c="pid"),
    "revheun-pid-clip": dict(s="ReversibleHeun", c="pid", clip="sr", memory=True),
    "revheun-const": dict(s="ReversibleHeun", c="const", memory=True),
    "leapfrog-const": dict(s="LeapfrogMidpoint", c="const", memory=True),
    "leapfrog-stepto": dict(s="LeapfrogMidpoint", c="stepto", memory=True),
    "sie-const": dict(s="SemiImplicitEuler", c="const"),
    "halfheun-pid": dict(s="Half(Heun)", c="pid", clip="r"),
    "halftsit5-pi": dict(s="Half(Tsit5)", c="pi", cache=("solver",)),
    "halfsie-pid": dict(s="Half(SIE)", c="pid"),
    "sde-spark-clip": dict(s="sde:SPaRK", c="pid", clip="r"),
    "sde-shark-const": dict(s="sde:GeneralShARK", c="const"),
    "sde-slowrk": dict(s="sde:SlowRK", c="const"),
    "sde-strmil": dict(s="sde:StratonovichMilstein", c="const"),
    "sde-sra1-pid": dict(s="sde:SRA1", c="pid", clip="r", additive=True),
    "sde-heun-pi": dict(s="sde:Heun", c="pi", clip="sj", cache=("solver",)),
    "sde-revheun": dict(s="sde:ReversibleHeun", c="const", memory=True),
    "uld-align": dict(s="uld:ALIGN", c="pid", clip="r", cache=("solver",)),
    "uld-quicsort": dict(s="uld:QUICSORT", c="const"),
    "uld-should": dict(s="uld:ShOULD", c="const", cache=("solver",)),
}
QUICK_SKIP = {"uld-should", "sde-sra1-pid", "sde-slowrk", "sil3-pid", "euler-const", "halfsie-pid", "sde-strmil"}
HAND = {"dopri5-i-jump", "bosh3-pid-clip", "revheun-pid-clip", "leapfrog-stepto", "leapfrog-const", "kvaerno3-i-jump", "halfheun-pid", "tsit5-pid", "sde-spark-clip", "sie-const", "uld-align"}
D, MAX = 2, 120
PID = dict(pid=dict(pcoeff=0.2, icoeff=0.5, dcoeff=0.05), pi=dict(pcoeff=0.3, icoeff=0.4), i=dict())


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 6
    T = []
    for n, c in CFG.items():
        if m == 1 and n in QUICK_SKIP:
            continue
        for i in range(m):
            T.append((f"{n}:{i}", dict(cfg=n, i=i, _cost=9 if any(k in n for k in ("kv", "ken", "sil", "halft")) else 4)))
    for i, (sol, wrap) in enumerate([("Tsit5", ""), ("Bosh3", "clip")] * (1 if m == 1 else 3)):
        T.append((f"auto-{i}-{sol}", dict(kind="auto", solver=sol, wrap=wrap, i=i)))
    return T


# ------------------------------------------------------------------ the problem
def _forcing(args, t):
    import jax.numpy as jnp
    return args["b"] * jnp.sin(args["w"] * t) + args["s"] * jnp.sum(jnp.where(t > args["jts"], 1.0, 0.0))


def _terms(s, args, key, additive, direction=None):
    """direction None: user time, for diffeqsolve; +-1: the solver's own time, for stepping by hand"""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import lineax as lx

    d = 1 if direction is None else direction

    def wrap(f):
        return f if direction is None else (lambda t, y, a: jax.tree_util.tree_map(lambda x: d * x, f(d * t, y, a)))

    full = wrap(lambda t, y, a: a["A"] @ y + a["c"] * jnp.tanh(y[::-1]) + _forcing(a, t))
    if s.startswith("sde:"):
        bm = dfx.VirtualBrownianTree(-4.0, 4.0, 2.0 ** -10, (D,), key, levy_area=dfx.SpaceTimeTimeLevyArea)
        g = (lambda t, y, a: lx.DiagonalLinearOperator(0.2 * a["c"] * (1 + 0.3 * jnp.sin(a["w"] * t)))) if additive else (
            lambda t, y, a: lx.DiagonalLinearOperator(0.2 * a["c"] * (1 + 0.5 * jnp.tanh(y))))
        return dfx.MultiTerm(dfx.ODETerm(full), dfx.ControlTerm(g, bm))
    if s.startswith("uld:"):
        bm = dfx.VirtualBrownianTree(-4.0, 4.0, 2.0 ** -10, (D,), key, levy_area=dfx.SpaceTimeTimeLevyArea)
        drift = dfx.UnderdampedLangevinDriftTerm(gamma=1.3, u=0.7, grad_f=lambda x, a: x + 0.3 * jnp.sin(a["w"] * x))
        return dfx.MultiTerm(drift, dfx.UnderdampedLangevinDiffusionTerm(gamma=1.3, u=0.7, bm=bm))
    if s in ("KenCarp4", "Sil3"):
        return dfx.MultiTerm(dfx.ODETerm(wrap(lambda t, y, a: a["c"] * jnp.tanh(y[::-1]) + _forcing(a, t))), dfx.ODETerm(wrap(lambda t, y, a: a["A"] @ y)))
    if s in ("SemiImplicitEuler", "Half(SIE)"):
        return (dfx.ODETerm(wrap(lambda t, y, a: a["A"] @ y + _forcing(a, t))), dfx.ODETerm(wrap(lambda t, y, a: -jnp.sin(y) * a["c"] + _forcing(a, t))))
    return dfx.ODETerm(full)


def _solver(s):
    import diffrax as dfx
    from dv.rec import ode_solvers
    if s[:4] in ("sde:", "uld:"):
        return getattr(dfx, s[4:])(**({"taylor_threshold": 0.1} if s.startswith("uld:") else {}))
    return ode_solvers(fixed_tols=True)[s][0]


def _controller(cfg, inp):
    import diffrax as dfx
    c = cfg["c"]
    if c == "const":
        ctrl = dfx.ConstantStepSize()
    elif c == "stepto":
        ctrl = dfx.StepTo(ts=inp["steps"])
    else:
        kw = dict(PID[c])
        if cfg.get("dtmin"):
            kw["dtmin"] = inp["dtmin"]
        ctrl = dfx.PIDController(rtol=inp["rtol"], atol=inp["rtol"] * 0.1, **kw)
    clip = cfg.get("clip", "")
    if clip:
        ctrl = dfx.ClipStepSizeController(ctrl, step_ts=inp["sts"] if "s" in clip else None, jump_ts=inp["jts"] if "j" in clip else None,
                                          store_rejected_steps=12 if "r" in clip else None)
    return ctrl


def _data(rng, cfg, n, i, quick):
    sign = -1.0 if i % 2 == 1 and not cfg["s"].startswith("uld:") else 1.0
    t0 = rng.uniform(-0.5, 0.5)
    L = rng.uniform(1.2, 2.0)
    t1 = t0 + sign * L
    fr = np.sort(rng.uniform(0.08, 0.92, 3))
    jts = t0 + sign * L * fr
    sts = t0 + sign * L * np.sort(rng.uniform(0.05, 0.95, 3))
    steps = t0 + sign * L * np.concatenate([[0], np.sort(rng.uniform(0.02, 0.98, 14)), [1]])
    steps[-1] = t1
    args = dict(A=rng.normal(size=(D, D)) * 1.2 - 0.5 * np.eye(D), b=rng.normal(size=D) * 3, w=np.float64(rng.uniform(3, 9)), c=rng.normal(size=D),
                s=rng.normal(size=D) * (2.0 if "j" in cfg.get("clip", "") else 0.0), jts=jts)
    y0 = rng.normal(size=D)
    s = cfg["s"]
    if s in ("SemiImplicitEuler", "Half(SIE)") or s.startswith("uld:"):
        y0 = (y0, rng.normal(size=D))
    sde = s[:4] in ("sde:", "uld:")
    rtol = {"Heun": 3e-3, "Ralston": 3e-3, "Bosh3": 1e-4, "ImplicitEuler": 3e-2, "ReversibleHeun": 1e-1, "Half(Heun)": 1e-3, "Half(SIE)": 1e-2, "Kvaerno3": 1e-3}.get(s, 1e-5)
    if sde:
        rtol = 3e-2
    return dict(t0=t0, t1=t1, dt0=sign * L * (rng.uniform(0.05, 0.08) if cfg["c"] == "const" else rng.uniform(0.1, 0.3)), y0=y0, args=args, jts=jts, sts=sts, steps=steps,
                rtol=np.float64(rtol), dtmin=np.float64(L / 40), key=np.asarray(np.random.default_rng([i, n]).integers(0, 2 ** 32, 2), np.uint32)), sign


# ------------------------------------------------------------------ running
def _dt_for(a, b):
    """a float d with a + d == b, or None"""
    d = b - a
    for c in (d, np.nextafter(d, np.inf), np.nextafter(d, -np.inf), np.nextafter(np.nextafter(d, np.inf), np.inf), np.nextafter(np.nextafter(d, -np.inf), -np.inf)):
        if a + c == b:
            return c
    return None


def run_auto(name, p, mon):
    """Continuing with dt0=None: the first step is the automatic one, the history is the one passed."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from dv import rec
    rng = _rng(mon, name)
    solver = getattr(dfx, p["solver"])()
    term = dfx.ODETerm(lambda t, y, a: a[0] * jnp.sin(a[1] * t) * y[::-1] - y * jnp.tanh(y) + jnp.cos(3 * t))

    def ctrl(q):
        c = dfx.PIDController(rtol=q["tol"], atol=q["tol"], pcoeff=0.3, icoeff=0.4, dcoeff=0.05)
        return dfx.ClipStepSizeController(c, step_ts=q["sts"], store_rejected_steps=8) if p["wrap"] else c

    @eqx.filter_jit
    def solve(q, t0, t1, dt0, y0, st):
        return dfx.diffeqsolve(term, solver, t0, t1, dt0, y0, q["args"], stepsize_controller=ctrl(q), max_steps=400, throw=False,
                               saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(steps=True), dfx.SubSaveAt(t1=True)], solver_state=True, controller_state=True, made_jump=True),
                               solver_state=st[0], controller_state=st[1], made_jump=st[2])

    @eqx.filter_jit
    def auto(q, t0, t1, y0):
        return ctrl(q).init(term, t0, t1, y0, None, q["args"], solver.func, solver.error_order(term))[0]

    for k in range(4):
        a, c = -float(rng.choice([1.0, 0.5, 2.0])), float(rng.choice([1.0, 2.0]))
        q = dict(tol=jnp.asarray(10.0 ** rng.uniform(-7, -4)), args=jnp.asarray(rng.uniform(1, 4, 2)), sts=jnp.asarray(np.sort(rng.uniform(a, c, 3))))
        y0 = jnp.asarray(rng.normal(size=2))
        mid = jnp.asarray(0.0)
        P = solve(q, jnp.asarray(a), mid, jnp.asarray(0.1), y0, (None, None, None))
        yb = P.ys[1][0]
        h = auto(q, mid, jnp.asarray(c), yb)
        st = (P.solver_state, P.controller_state, P.made_jump)
        A = solve(q, mid, jnp.asarray(c), None, yb, st)
        B = solve(q, mid, jnp.asarray(c), h, yb, st)
        F = solve(q, mid, jnp.asarray(c), h, yb, (None, None, None))
        ok = all(bool(x.result == dfx.RESULTS.successful) for x in (P, A, B, F))
        if not ok:
            mon.ok(False, "a plain solve failed", results=[str(x.result) for x in (P, A, B, F)])
            continue
        ta, tb, tf = (np.asarray(x.ts[0]) for x in (A, B, F))
        mon.case((name, k), nontrivial=True, first=float(h), steps=int(A.stats["num_steps"]))
        mon.event("automatic_first_steps")
        mon.event("history_matters", int(not np.array_equal(tb, tf)))
        mon.close(ta, tb, "dt0=None with a passed controller_state differs from passing the automatic first step", rtol=1e-9, atol=1e-12)
        mon.close(np.asarray(A.ys[0]), np.asarray(B.ys[0]), "dt0=None with a passed controller_state: states differ", rtol=1e-8, atol=1e-10)


def run(name, p, mon):
    if p.get("kind") == "auto":
        return run_auto(name, p, mon)
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import flat, record, unlog

    cfg = CFG[p["cfg"]]
    s, c = cfg["s"], cfg["c"]
    solver = _solver(s)
    additive = cfg.get("additive", False)
    sde = s[:4] in ("sde:", "uld:")
    implicit = isinstance(solver, dfx.AbstractImplicitSolver)
    tol = 1e-6 if sde else 1e-8
    NQ = 6

    def save(ts):
        return dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=ts), dfx.SubSaveAt(t1=True)], dense=True,
                          solver_state=True, controller_state=True, made_jump=True)

    @eqx.filter_jit
    def full(inp, ts):
        sol = dfx.diffeqsolve(_terms(s, inp["args"], inp["key"], additive), solver, inp["t0"], inp["t1"], None if c == "stepto" else inp["dt0"], inp["y0"], inp["args"],
                              saveat=save(ts), stepsize_controller=record(_controller(cfg, inp), MAX), max_steps=MAX, throw=False)
        return sol

    @eqx.filter_jit
    def part(inp, t0, t1, dt0, y0, steps, ts, sstate, cstate, mj, max_steps, sv, q):
        inp = dict(inp, steps=steps)
        sol = dfx.diffeqsolve(_terms(s, inp["args"], inp["key"], additive), solver, t0, t1, None if c == "stepto" else dt0, y0, inp["args"],
                              saveat=save(ts) if sv else dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True),
                              stepsize_controller=_controller(cfg, inp), max_steps=max_steps, throw=False,
                              solver_state=sstate, controller_state=cstate, made_jump=mj)
        if not sv:
            return sol, None
        return sol, jax.vmap(sol.evaluate)(q)

    @eqx.filter_jit
    def hand_init(inp, d, t0, t1, y0):
        return solver.init(_terms(s, inp["args"], inp["key"], additive, d), t0, t1, y0, inp["args"])

    @eqx.filter_jit
    def hand_step(inp, d, t0, t1, y0, st, mj):
        y1, err, dense, st, res = solver.step(_terms(s, inp["args"], inp["key"], additive, d), t0, t1, y0, inp["args"], st, mj)
        return y1, err, st, res

    ev = eqx.filter_jit(lambda sol, q: jax.vmap(sol.evaluate)(q))
    rows = lambda y: np.concatenate([np.asarray(x) for x in jtu.tree_leaves(y)], axis=-1)  # noqa: E731
    rng = _rng(mon, name)
    ninst = 2 if c == "stepto" else 3
    J = lambda tr: jtu.tree_map(jnp.asarray, tr)  # noqa: E731
    for k in range(ninst):
        inp, sign = _data(rng, cfg, zlib.crc32(name.encode()) % 1000 + mon.seed * 1000, k, True)
        inp = J(inp)
        t0u, t1u = float(inp["t0"]), float(inp["t1"])
        F = full(inp, jnp.asarray(t0u + (t1u - t0u) * np.sort(rng.random(NQ))))
        if not bool(F.result == dfx.RESULTS.successful):
            mon.ok(False, "the reference solve failed", result=str(F.result))
            continue
        log = unlog(F.controller_state)
        acc = np.where(log["keep"])[0]
        natt = len(log["keep"])
        mon.event("reference_attempts", natt)
        nacc = len(acc)
        if nacc < 4:
            continue
        # in user time
        T_end = log["t1"][acc] * sign          # ends of accepted steps
        T_from = log["tprev"][acc] * sign      # where the next one starts
        T_next = log["tnext"][acc] * sign
        Y = log["y1"][acc]
        jumped = log["jump"][acc]
        mkY = lambda v: v if not isinstance(inp["y0"], tuple) else (v[:D], v[D:])  # noqa: E731
        last_rej = np.array([a > 0 and not log["keep"][a - 1] for a in acc])
        # overshoot: an attempt after the previous accepted step ended beyond this one (a solve ending here would not have made it)
        over, hard = np.zeros(nacc, bool), np.zeros(nacc, bool)
        for m in range(nacc):
            lo = acc[m - 1] + 1 if m else 0
            over[m] = np.any(log["t1"][lo:acc[m]] > log["t1"][acc[m]])
            hard[m] = np.any(log["t1"][: acc[m] if cfg.get("dtmin") else lo] > log["t1"][acc[m]])   # an earlier attempt went beyond: it would have been clipped, and gone otherwise
        stepsF = np.concatenate([[t0u], T_end])

        def expect(i, j):
            """reference: accepted steps i..j-1"""
            return T_end[i:j], Y[i:j]

        def steps_between(a, b):
            if c != "stepto":
                return inp["steps"]
            st = np.asarray(inp["steps"])
            ins = st[(st * sign > a * sign) & (st * sign < b * sign)]
            return jnp.asarray(np.concatenate([[a], ins, [b]]))

        def one(i, j, y, sstate, cstate, mj, what, drop=(), max_steps=MAX, compare=True, tl=None):
            """solve from after accepted step i-1 to the end of accepted step j-1"""
            a = t0u if i == 0 else T_from[i - 1]
            b = t1u if j == nacc else T_end[j - 1]
            if i == 0:
                dt = float(inp["dt0"])
            else:
                dt = _dt_for(a, T_next[i - 1])
                if dt is None:
                    return None
            ts = a + (b - a) * np.sort(rng.random(NQ))
            q = a + (b - a) * rng.random(NQ)
            sol, dv_ = part(inp, jnp.asarray(a), jnp.asarray(b), jnp.asarray(dt), y, steps_between(a, b), jnp.asarray(ts), sstate, cstate, mj, MAX, True, jnp.asarray(q))
            if not compare:
                return sol
            tl = tol if tl is None else tl
            mon.ok(sol.result == dfx.RESULTS.successful, f"{what}: the piece succeeds", result=str(sol.result), i=i, j=j)
            et, ey = expect(i, j)
            gt, gy = np.asarray(sol.ts[0]), rows(sol.ys[0])
            fin = np.isfinite(gt).sum()
            mon.ok(fin == j - i + 1, f"{what}: number of accepted steps", got=int(fin) - 1, want=j - i, i=i, j=j)
            if fin == j - i + 1:
                mon.close(gt[1:fin], et, f"{what}: step times", rtol=tl, atol=tl, i=i, j=j)
                sc = np.abs(Y).max()
                mon.close(gy[1:fin], ey, f"{what}: values at the steps", rtol=tl, atol=tl * (1 + sc), i=i, j=j)
                mon.close(gy[0], flat(y), f"{what}: initial value", i=i, j=j)
            mon.event("resumed_steps", j - i)
            # outputs in between
            want = rows(ev(F, jnp.asarray(ts)))
            got = rows(sol.ys[1])
            mon.close(got, want, f"{what}: SaveAt(ts)", rtol=tl * 10, atol=tl * 10 * (1 + np.abs(Y).max()), i=i, j=j)
            mon.close(rows(dv_), rows(ev(F, jnp.asarray(q))), f"{what}: dense output", rtol=tl * 10, atol=tl * 10 * (1 + np.abs(Y).max()), i=i, j=j)
            return sol

        def att(i, j):
            """attempts the reference made for accepted steps i..j-1"""
            return acc[j - 1] - (acc[i - 1] if i else -1)

        def sums(parts, what):
            for key in ("num_steps", "num_accepted_steps", "num_rejected_steps"):
                mon.equal(sum(int(x.stats[key]) for x in parts), int(F.stats[key]), f"{what}: {key} adds up")

        # ---- single splits
        cand = [m for m in range(1, nacc) if not hard[m - 1]]
        if not cand:
            continue
        pri = [m for m in cand if jumped[m - 1]] + [m for m in cand if m < nacc and (acc[m] - acc[m - 1] > 1)] + [m for m in cand if last_rej[m - 1]]
        pick = list(dict.fromkeys([int(x) for x in rng.permutation(pri)[:2]] + [cand[0], cand[-1]] + [int(x) for x in rng.permutation(cand)[:2]]))[: 2 if c == "stepto" else 4]
        y0 = inp["y0"]
        for m in pick:
            if over[m - 1] and "r" in cfg.get("clip", ""):
                continue   # the first piece cannot have seen the attempt that went beyond its end
            mon.case((name, k, "split", m), nontrivial=True, sign=sign, steps=nacc, split=m)
            P = one(0, m, y0, None, None, None, "before the split")
            if P is None:
                continue
            yb = jtu.tree_map(lambda x: x[0], P.ys[2])
            Q = one(m, nacc, yb, P.solver_state, P.controller_state, P.made_jump, "resumed")
            if Q is None:
                continue
            mon.event("splits")
            mon.event("splits_at_jump", int(jumped[m - 1]))
            mon.event("splits_after_rejection", int(last_rej[m - 1]))
            mon.equal(bool(P.made_jump), bool(jumped[m - 1]), "made_jump is what the uninterrupted solve recorded")
            if not over[m - 1]:
                sums([P, Q], "one split")
            if m == pick[0]:
                for key in ("solver_state", "controller_state"):
                    wantst = F.solver_state if key == "solver_state" else F.controller_state[0]
                    g, w = jtu.tree_leaves(getattr(Q, key)), jtu.tree_leaves(wantst)
                    mon.ok(len(g) == len(w), f"resumed: final {key} structure")
                    for gg, ww in zip(g, w):
                        if np.issubdtype(np.asarray(gg).dtype, np.floating) and key == "solver_state":
                            mon.close(gg, ww, f"resumed: final {key}", rtol=1e-5, atol=1e-5 * (1 + np.abs(np.asarray(ww)).max(initial=0)))
                if k < 2:
                    for om in cfg.get("cache", ()):
                        mon.case((name, k, "omit", om, m), nontrivial=True, sign=sign, split=m)
                        one(m, nacc, yb, None if om in ("solver", "both") else P.solver_state, None if om in ("controller", "both") else P.controller_state,
                            P.made_jump, f"resumed without the {om} state", tl=1e-5 if implicit else None)
                        mon.event("cache_omitted")
                    # memory really is memory: leaving it out must be visible, or this check would be blind
                    if cfg.get("memory"):
                        R = one(m, nacc, yb, None, P.controller_state, P.made_jump, "", compare=False)
                        if R is not None and not np.allclose(np.asarray(flat(R.ys[2])), Y[-1], rtol=1e-9, atol=1e-12):
                            mon.event("memory_mattered")
                    # the caller changed the problem at the split and says so
                    if "solver" in cfg.get("cache", ()) and not implicit:
                        mon.case((name, k, "args", m), nontrivial=True)
                        inp2 = dict(inp, args=dict(inp["args"], b=inp["args"]["b"] * -1.7 + 0.3, w=inp["args"]["w"] * 1.6))
                        a, b = T_from[m - 1], t1u
                        dt = _dt_for(a, T_next[m - 1])
                        if dt is not None:
                            com = (inp2, jnp.asarray(a), jnp.asarray(b), jnp.asarray(dt), yb, steps_between(a, b), jnp.linspace(a, b, NQ))
                            R1, _ = part(*com, P.solver_state, P.controller_state, jnp.asarray(True), MAX, True, jnp.linspace(a, b, NQ))
                            R2, _ = part(*com, None, P.controller_state, P.made_jump, MAX, True, jnp.linspace(a, b, NQ))
                            mon.close(R1.ts[0], R2.ts[0], "made_jump=True with changed arguments: step times", rtol=tol, atol=tol)
                            mon.close(flat(R1.ys[2]), flat(R2.ys[2]), "made_jump=True with changed arguments: final value", rtol=tol, atol=tol)
                            mon.event("args_changed")

        # ---- chain of splits
        ok_cut = [m for m in cand if not (over[m - 1] and "r" in cfg.get("clip", ""))]
        if len(ok_cut) >= 2:
            cuts = sorted(int(x) for x in rng.permutation(ok_cut)[: int(rng.integers(2, 5))])
            mon.case((name, k, "chain", tuple(cuts)), nontrivial=True, sign=sign, cuts=cuts)
            y, ss, cs, mj, i, parts = y0, None, None, None, 0, []
            for j in cuts + [nacc]:
                P = one(i, j, y, ss, cs, mj, "chain")
                if P is None:
                    break
                parts.append(P)
                y, ss, cs, mj, i = jtu.tree_map(lambda x: x[0], P.ys[2]), P.solver_state, P.controller_state, P.made_jump, j
            else:
                mon.event("chains")
                if not any(over[m - 1] for m in cuts):
                    sums(parts, "chain")

        # ---- split by the step budget: after any attempt, accepted or rejected
        if k == 0 and c != "stepto" and not (mon.tier == "quick" and c == "const" and p["cfg"] != "leapfrog-const"):
            rej = np.where(~log["keep"])[0]
            rej = rej[rej + 1 < natt]
            n = int(rng.choice(rej)) + 1 if len(rej) else int(rng.integers(1, natt))
            i = int(log["keep"][:n].sum())
            mon.case((name, k, "budget", n), nontrivial=True, sign=sign, budget=n, rejected=bool(not log["keep"][n - 1]))
            P, _ = part(inp, inp["t0"], inp["t1"], inp["dt0"], y0, inp["steps"], jnp.linspace(t0u, t1u, NQ), None, None, None, n, False, jnp.linspace(t0u, t1u, NQ))
            mon.ok(P.result == dfx.RESULTS.max_steps_reached, "budget: result", result=str(P.result))
            a = float(log["tprev"][n - 1] * sign)
            dt = _dt_for(a, float(log["tnext"][n - 1] * sign))
            yb = inp["y0"] if i == 0 else jtu.tree_map(jnp.asarray, mkY(Y[i - 1]))
            yend = np.asarray(flat(jtu.tree_map(lambda x: x[0], P.ys)))
            mon.close(yend, flat(yb), "budget: value where it stopped", rtol=tol, atol=tol)
            mon.close(P.ts[0], t0u if i == 0 else T_end[i - 1], "budget: time where it stopped", rtol=tol, atol=tol)
            if dt is not None:
                b = t1u
                ts = jnp.linspace(a, b, NQ)
                Q, _ = part(inp, jnp.asarray(a), jnp.asarray(b), jnp.asarray(dt), jtu.tree_map(lambda x: x[0], P.ys), steps_between(a, b), ts,
                            P.solver_state, P.controller_state, P.made_jump, MAX, True, ts)
                et, ey = expect(i, nacc)
                gt = np.asarray(Q.ts[0])
                fin = int(np.isfinite(gt).sum())
                mon.ok(fin == nacc - i + 1, "budget: number of remaining accepted steps", got=fin - 1, want=nacc - i, n=n)
                if fin == nacc - i + 1:
                    mon.close(gt[1:fin], et, "budget: remaining step times", rtol=tol, atol=tol, n=n)
                    mon.close(rows(Q.ys[0])[1:fin], ey, "budget: remaining values", rtol=tol, atol=tol * (1 + np.abs(Y).max()), n=n)
                sums([P, Q], "budget")
                mon.event("budget_splits")
                mon.event("budget_splits_rejected", int(not log["keep"][n - 1]))
                mon.event("resumed_steps", fin)

        # ---- by hand
        if k < 2 and (mon.tier != "quick" or p["cfg"] in HAND) and not (s[:4] in ("sde:", "uld:") and sign < 0):
            mon.case((name, k, "hand"), nontrivial=True, sign=sign, attempts=natt)
            d = None if sde else jnp.asarray(int(sign))
            st = hand_init(inp, d, jnp.asarray(log["t0"][0]), jnp.asarray(log["t1"][0]), inp["y0"])
            y, mj = inp["y0"], jnp.asarray(False)
            got, errs = [], []
            for r in range(min(natt, 30)):
                y1, err, st1, res = hand_step(inp, d, jnp.asarray(log["t0"][r]), jnp.asarray(log["t1"][r]), y, st, mj)
                got.append(np.asarray(flat(y1)))
                errs.append(np.zeros_like(got[-1]) if err is None else np.asarray(flat(err)))
                if log["keep"][r]:
                    y, st, mj = y1, st1, jnp.asarray(bool(log["jump"][r]))
            n = len(got)
            sc = 1 + np.abs(Y).max()
            mon.close(np.stack(got), log["y1"][:n], "stepping by hand: proposed values", rtol=tol, atol=tol * sc)
            mon.close(np.stack(errs), log["err"][:n], "stepping by hand: error estimates", rtol=1e-5, atol=max(tol, 1e-9) * sc)
            mon.event("hand_steps", n)
