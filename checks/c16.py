"""C16: success is reported only for complete solves; failures are reported as such.

Faults are injected into real solves - step budgets one short, vector fields that stop being finite, implicit equations without a solution (in one
stage of one step), controllers, solvers and root finders that fail on a scheduled attempt - and what the solve reports and saved is judged against
the recorded history of the healthy solve.
"""
import zlib
from typing import Any

import numpy as np

PROPERTY = "C16"
RULE = ("one evaluation = one real solve with one injected fault (or exactly no room to spare); distinct = (configuration, fault, where it strikes); "
        "non-trivial = the fault was reached (or provably avoidable)")
ASSUMPTIONS = ["explicit fixed steps over a non-finite vector field are not judged (nothing declares them failures)"]
MIN_EVENTS = {"budget_exact": 8, "budget_short": 60, "nonfinite": 100, "stage_faults": 150, "unsolvable_fixed": 8, "recovered": 40,
              "residuals": 100, "user_failures": 40, "throws": 10, "prefix_values": 1500, "rejected_failures_ignored": 4, "minimum_step": 20}

BUDGET = {
    "tsit5-pid": dict(s="Tsit5", c="pid"),
    "bosh3-clip": dict(s="Bosh3", c="clip"),
    "kvaerno3-pid": dict(s="Kvaerno3", c="pid"),
    "heun-const": dict(s="Heun", c="const"),
    "kencarp4-const": dict(s="KenCarp4", c="const"),
    "leapfrog-const": dict(s="LeapfrogMidpoint", c="const"),
    "revheun-pid": dict(s="ReversibleHeun", c="pid"),
    "half-pid": dict(s="Half(Heun)", c="pid"),
    "tsit5-direct": dict(s="Tsit5", c="pid", adj="direct"),
    "dopri5-fwd": dict(s="Dopri5", c="pid", adj="fwd"),
    "tsit5-back": dict(s="Tsit5", c="pid", adj="back"),
    "dopri5-rec3": dict(s="Dopri5", c="pid", adj="rec3"),
    "heun-event": dict(s="Heun", c="pid", event=True),
}
NONFIN = ["Heun", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "Midpoint", "ReversibleHeun", "Kvaerno3", "Kvaerno5", "KenCarp3", "ImplicitEuler", "Half(Tsit5)", "Half(SIE)", "sde:SPaRK"]
STAGES = ["ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3", "Half(Kvaerno3)"]
IMPL_FAIL = ("nonlinear_divergence", "nonlinear_max_steps_reached", "singular", "breakdown", "nonfinite", "nonfinite_input", "stagnation", "conlim")
NAMES = ("successful", "max_steps_reached", "dt_min_reached", "event_occurred", "max_steps_rejected", "internal_error") + IMPL_FAIL
D = 3


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 6
    T = []
    for i in range(m):
        T += [(f"budget:{n}:{i}", dict(kind="budget", cfg=n, _cost=8)) for n in BUDGET]
        T += [(f"nonfinite:{s}:{i}", dict(kind="nonfinite", s=s, i=i, _cost=8 if s.startswith(("K", "sde")) else 4)) for s in NONFIN]
        T += [(f"stage:{s}:{rf}:{i}", dict(kind="stage", s=s, rf=rf, _cost=6)) for j, s in enumerate(STAGES) for rf in (("verychord", "newton") if m > 1 or j < 2 else (("verychord", "newton")[j % 2],))]
        T += [(f"unsolvable:{s}:{i}", dict(kind="unsolvable", s=s, _cost=5)) for s in ("ImplicitEuler", "Kvaerno3", "Kvaerno5")]
        T += [(f"recover:{s}:{i}", dict(kind="recover", s=s)) for s in ("Tsit5", "Bosh3", "Kvaerno3", "ReversibleHeun", "Half(Heun)", "KenCarp3")]
        T += [(f"user:{w}:{i}", dict(kind="user", w=w)) for w in ("controller", "solver", "rejected", "rootfinder")]
        T += [(f"throw:{k}:{i}", dict(kind="throw", k=k, _cost=4)) for k in ("budget", "exact", "dtmin", "implicit", "event")]
        T += [(f"rejects:{i}", dict(kind="rejects"))]
    return T


def run(name, p, mon):
    return globals()["run_" + p["kind"]](name, p, mon)


def _rname(res):
    import diffrax as dfx
    for n in NAMES:
        if hasattr(dfx.RESULTS, n) and bool(np.asarray(res == getattr(dfx.RESULTS, n))):
            return n
    return "?"


def _rnames(res, n):
    """names for a batch of results"""
    import diffrax as dfx
    out = np.full(n, "?", object)
    for nm in NAMES:
        if hasattr(dfx.RESULTS, nm):
            out[np.broadcast_to(np.asarray(res == getattr(dfx.RESULTS, nm)), (n,))] = nm
    return out


def _problem(s, poison=None):
    """terms of a smooth problem; poison(t) is added to the (implicit part of the) vector field"""
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx

    pz = (lambda t, y, a: 0.0) if poison is None else poison
    lin = lambda t, y, a: a["A"] @ y  # noqa: E731
    rest = lambda t, y, a: a["c"] * jnp.tanh(y[::-1]) + a["b"] * jnp.sin(a["w"] * t)  # noqa: E731
    if s in ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3"):
        return dfx.MultiTerm(dfx.ODETerm(rest), dfx.ODETerm(lambda t, y, a: lin(t, y, a) + pz(t, y, a)))
    if s in ("SemiImplicitEuler", "Half(SIE)"):
        return (dfx.ODETerm(lambda t, y, a: lin(t, y, a) + a["b"] * jnp.sin(a["w"] * t) + pz(t, y, a)), dfx.ODETerm(lambda t, y, a: -jnp.sin(y) * a["c"]))
    full = dfx.ODETerm(lambda t, y, a: lin(t, y, a) + rest(t, y, a) + pz(t, y, a))
    if s.startswith("sde:"):
        return lambda key: dfx.MultiTerm(full, dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(0.2 * a["c"] * (1 + 0.5 * jnp.tanh(y))),
                                                                dfx.VirtualBrownianTree(-4.0, 4.0, 2.0 ** -10, (D,), key, levy_area=dfx.SpaceTimeTimeLevyArea)))
    return full


def _solver(s, rf=True):
    import diffrax as dfx
    from dv.rec import ode_solvers
    return getattr(dfx, s[4:])() if s.startswith("sde:") else ode_solvers(fixed_tols=rf)[s][0]


def _inst(rng, s, sign=None):
    sign = float(rng.choice([-1, 1])) if sign is None else sign
    t0 = rng.uniform(-1, 1)
    L = rng.uniform(1.0, 1.8)
    y0 = rng.normal(size=D)
    return dict(t0=t0, t1=t0 + sign * L, L=L, sign=sign, dt0=sign * L * rng.uniform(0.05, 0.3), y0=(y0, rng.normal(size=D)) if s in ("SemiImplicitEuler", "Half(SIE)") else y0,
                args=dict(A=rng.normal(size=(D, D)) * 0.8 - 0.3 * sign * np.eye(D), b=rng.normal(size=D) * 3, c=rng.normal(size=D), w=np.float64(rng.uniform(3, 8))),
                key=rng.integers(0, 2 ** 32, 2).astype(np.uint32), jts=t0 + sign * L * np.sort(rng.uniform(0.1, 0.9, 2)), ts=t0 + sign * L * np.sort(rng.uniform(0, 1, 9)))


RTOL = {"Heun": 3e-3, "Ralston": 3e-3, "Midpoint": 1e-2, "Bosh3": 1e-4, "ImplicitEuler": 3e-2, "ReversibleHeun": 1e-1, "Half(Heun)": 1e-3, "Half(SIE)": 1e-2, "Kvaerno3": 1e-3, "KenCarp3": 1e-3, "sde:SPaRK": 5e-2}


def _saveat():
    import diffrax as dfx
    return lambda ts: dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=ts), dfx.SubSaveAt(t1=True)], controller_state=True)


def _rows(y):
    import jax
    return np.concatenate([np.asarray(x) for x in jax.tree_util.tree_leaves(y)], axis=-1)


def _np_log(cs, i):
    from dv.rec import unbatch, unlog
    return unlog(unbatch(cs, i))


# ------------------------------------------------------------------ step budgets
def run_budget(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import record, stack

    cfg = BUDGET[p["cfg"]]
    s, BIG = cfg["s"], 240
    rng = _rng(mon, name)
    B = 6
    insts = [_inst(rng, s) for _ in range(B)]
    for n, it in enumerate(insts):
        it["dt0"] = it["sign"] * it["L"] / (11.3 + 3 * n) if cfg["c"] == "const" else it["dt0"]
        it["rtol"] = np.float64(RTOL.get(s, 1e-5) * 10.0 ** rng.uniform(-0.3 if "Heun" in s else -1, 0.3))
    adj = {None: None, "direct": dfx.DirectAdjoint(), "fwd": dfx.ForwardMode(), "back": dfx.BacksolveAdjoint(), "rec3": dfx.RecursiveCheckpointAdjoint(checkpoints=3)}[cfg.get("adj")]
    batch = stack(insts)

    def solve(it, max_steps, rec, save):
        c = cfg["c"]
        ctrl = dfx.ConstantStepSize() if c == "const" else dfx.PIDController(rtol=it["rtol"], atol=it["rtol"] * 0.1)
        if c == "clip":
            ctrl = dfx.ClipStepSizeController(ctrl, jump_ts=it["jts"])
        if rec:
            ctrl = record(ctrl, BIG)
        ev = dfx.Event(lambda t, y, args, **kw: y[0] - 50.0) if cfg.get("event") else None
        if save == "all":
            sa = _saveat()(it["ts"])
        elif save == "dense":
            sa = dfx.SaveAt(dense=True)
        elif save == "every3":
            sa = dfx.SaveAt(steps=3, t1=True)
        elif save == "t1":
            sa = dfx.SaveAt(t1=True)
        else:
            sa = dfx.SaveAt(ts=it["ts"])
        kw = {} if adj is None or rec else dict(adjoint=adj)
        return dfx.diffeqsolve(_problem(s), _solver(s), it["t0"], it["t1"], it["dt0"], it["y0"], it["args"], saveat=sa, stepsize_controller=ctrl, max_steps=max_steps, throw=False, event=ev, **kw)

    jb = jtu.tree_map(jnp.asarray, batch)
    ref = eqx.filter_jit(jax.vmap(lambda it: solve(it, BIG, True, "all")))(jb)
    names = _rnames(ref.result, B)
    logs = [_np_log(ref.controller_state, i) for i in range(B)]
    N = np.array([len(lg["keep"]) for lg in logs])
    mon.case((name, "reference"), nontrivial=True, N=N.tolist())
    mon.ok((names == "successful").all(), "the generous solve succeeds", names=list(names))
    rej = N - np.array([lg["keep"].sum() for lg in logs])
    saves = ["ts", "t1"] if cfg.get("adj") == "back" else ["all", "every3", "dense"]
    order = np.argsort(N)
    picks = [int(N[order[1]]) - 1, int(N[order[3]])] if mon.tier == "quick" else [int(N[order[1]]) - 1, int(N[order[2]]), int(N[order[3]]) - 1, int(N[order[4]])]
    for j, m in enumerate(picks):
        for save in ([saves[(j + zlib.crc32(name.encode())) % len(saves)], saves[(j + 1 + zlib.crc32(name.encode())) % len(saves)]][: 1 if s.startswith(("K", "Half", "Bosh")) and j else 2] if mon.tier == "quick" else saves):
            out = eqx.filter_jit(jax.vmap(lambda it: solve(it, m, False, save)))(jb)
            nm = _rnames(out.result, B)
            for i in range(B):
                mon.case((name, save, m, i, int(N[i])), nontrivial=True, budget=m, needed=int(N[i]), rejected=int(rej[i]), save=save)
                enough = N[i] <= m
                mon.event("budget_exact", N[i] == m)
                mon.event("budget_short", not enough)
                mon.ok(nm[i] == ("successful" if enough else "max_steps_reached"), "step budget: result", got=nm[i], needed=int(N[i]), budget=m)
                k = min(m, N[i])
                lg = logs[i]
                acc = np.where(lg["keep"][:k])[0]
                if out.stats and "num_steps" in out.stats and not cfg.get("adj") == "back":
                    mon.equal(np.asarray(out.stats["num_steps"])[i], k, "step budget: num_steps")
                    mon.equal(np.asarray(out.stats["num_accepted_steps"])[i], len(acc), "step budget: num_accepted_steps")
                sg = insts[i]["sign"]
                sc = 1 + np.abs(lg["y1"]).max()
                tend = lg["t1"][acc[-1]] * sg if len(acc) else insts[i]["t0"]
                yend = lg["y1"][acc[-1]] if len(acc) else _rows(insts[i]["y0"])
                want_steps_t = np.concatenate([[insts[i]["t0"]], lg["t1"][acc] * sg])
                want_steps_y = np.concatenate([_rows(insts[i]["y0"])[None], lg["y1"][acc]])
                tl = 1e-7
                if save in ("all", "ts"):
                    ts_out, ys_out = (out.ts, out.ys) if save == "ts" else (out.ts[1], out.ys[1])
                    tt, yy = np.asarray(ts_out)[i], _rows(ys_out)[i]
                    reached = (insts[i]["ts"] - tend) * sg <= 0
                    edge = np.abs(insts[i]["ts"] - tend) < 1e-9
                    mon.ok(np.all((np.isfinite(tt) == reached) | edge), "step budget: exactly the requested times up to the last accepted step are saved", got=tt.tolist(), last=tend)
                    r = np.isfinite(tt) & reached
                    mon.close(tt[r], insts[i]["ts"][r], "step budget: saved times", atol=0)
                    mon.close(yy[r], _rows(ref.ys[1])[i][r], "step budget: saved values", rtol=tl, atol=tl * sc)
                    mon.ok(not np.isfinite(yy[~np.isfinite(tt)]).any(), "step budget: nothing is saved beyond the last accepted step")
                    mon.event("prefix_values", int(r.sum()))
                if save == "all":
                    tt, yy = np.asarray(out.ts[0])[i], _rows(out.ys[0])[i]
                    n = len(acc) + 1
                    mon.close(tt[:n], want_steps_t, "step budget: steps saved", atol=1e-9 * 1e3)
                    mon.close(yy[:n], want_steps_y, "step budget: values of steps", rtol=tl, atol=tl * sc)
                    mon.ok(not np.isfinite(tt[n:]).any() and not np.isfinite(yy[n:]).any(), "step budget: no further steps saved")
                    mon.close(np.asarray(out.ts[2])[i][0], tend, "step budget: final time saved", atol=1e-6)
                    mon.close(_rows(out.ys[2])[i][0], yend, "step budget: final value saved", rtol=tl, atol=tl * sc)
                    mon.event("prefix_values", n + 1)
                if save == "t1":
                    mon.close(np.asarray(out.ts)[i][0], tend, "step budget: final time saved", atol=1e-6)
                    mon.close(_rows(out.ys)[i][0], yend, "step budget: final value saved", rtol=tl, atol=tl * sc)
                if save == "every3":
                    tt, yy = np.asarray(out.ts)[i], _rows(out.ys)[i]
                    wt = [want_steps_t[a] for a in range(3, len(acc) + 1, 3)]
                    wy = [want_steps_y[a] for a in range(3, len(acc) + 1, 3)]
                    if len(acc) % 3 or len(acc) == 0:
                        wt, wy = wt + [tend], wy + [yend]
                    n = len(wt)
                    mon.ok(np.isfinite(tt).sum() == n, "step budget: number of every-third-step outputs", got=int(np.isfinite(tt).sum()), want=n, budget=m, accepted=len(acc))
                    if np.isfinite(tt).sum() == n:
                        mon.close(tt[:n], wt, "step budget: every third step", atol=1e-6)
                        mon.close(yy[:n], wy, "step budget: values of every third step", rtol=tl, atol=tl * sc)
                if save == "dense" and len(acc):
                    q = insts[i]["t0"] + (tend - insts[i]["t0"]) * np.array([0.0, 0.21, 0.5, 0.77, 1 - 1e-10])
                    soli = jtu.tree_map(lambda x: x[i] if eqx.is_array(x) else x, out)
                    mon.close(_rows(soli.evaluate(jnp.asarray(q[0])))[None], want_steps_y[:1], "step budget: dense output at the start", rtol=tl, atol=tl * sc)
                    if not s.startswith("Half"):   # (its dense output is C03's finding)
                        mon.close(_rows(soli.evaluate(jnp.asarray(q[4])))[None], yend[None], "step budget: dense output at the last accepted step", rtol=1e-6, atol=1e-6 * sc)


# ------------------------------------------------------------------ non-finite vector fields under adaptive steps
def run_nonfinite(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import record, stack

    s = p["s"]
    rng = _rng(mon, name)
    MAXS = 150
    base = []
    for k in range(7):
        it = _inst(rng, s)
        fr = [0.0, 0.15, 0.4, 0.7, 0.93, 0.999, 2.0][k]
        it["tau"] = it["t0"] + it["sign"] * it["L"] * fr if k != 6 else it["sign"] * 1e3
        it["bad"] = [np.nan, np.inf, -np.inf][int(rng.integers(3))] * np.where(np.arange(D) == rng.integers(D), 1.0, np.nan if rng.random() < 0.3 else 0.0)
        it["bad"] = np.where(np.isnan(it["bad"]) & (rng.random() < 0.5), np.nan, it["bad"])
        it["mask"] = ~np.isfinite(it["bad"])
        it["rtol"] = np.float64(RTOL.get(s, 1e-5))
        base.append(it)
    batch = jtu.tree_map(jnp.asarray, stack(base))
    healthy = jtu.tree_map(jnp.asarray, stack([dict(it, tau=np.float64(it["sign"] * 1e3)) for it in base]))

    def solve(it, mode):
        def poison(t, y, a):
            hit = (t - it["tau"]) * it["sign"] >= 0
            return jnp.where(hit & it["mask"], it["bad"], 0.0)
        terms = _problem(s, poison)
        if s.startswith("sde:"):
            terms = terms(it["key"])
        kw = dict(dtmin=it["L"] * 1e-4, force_dtmin=False) if "dtmin" in mode else {}
        ctrl = record(dfx.PIDController(rtol=it["rtol"], atol=it["rtol"] * 0.1, **kw), MAXS)
        sv = dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=it["ts"]), dfx.SubSaveAt(t1=True)], dense=True, controller_state=True)
        return dfx.diffeqsolve(terms, _solver(s), it["t0"], it["t1"], None if "auto" in mode else it["dt0"], it["y0"], it["args"], saveat=sv, stepsize_controller=ctrl, max_steps=MAXS, throw=False)

    autos = not s.startswith("sde:") and s not in ("Half(SIE)",)
    for mode in ("dtmin", "auto" if p["i"] % 2 == 0 and autos else "plain") if mon.tier == "quick" else ("dtmin", "plain") + (("auto", "auto-dtmin") if autos else ()):
        f = eqx.filter_jit(jax.vmap(lambda it: solve(it, mode)))
        ref, out = f(healthy), f(batch)
        rn, on = _rnames(ref.result, 7), _rnames(out.result, 7)
        for k in range(7):
            it = base[k]
            mon.case((name, mode, k), nontrivial=True, tau=it["tau"], bad=it["bad"], sign=it["sign"], mode=mode)
            if rn[k] != "successful":
                # the error control itself may end at the minimum step here; nothing to compare with
                mon.ok(rn[k] in ("dt_min_reached", "max_steps_reached"), "healthy solve: result", got=rn[k])
                continue
            lr, lo = _np_log(ref.controller_state, k), _np_log(out.controller_state, k)
            if k == 5 and s in ("Midpoint", "Half(SIE)"):
                continue   # need not evaluate so close to the end
            if k == 6:
                mon.ok(on[k] == "successful", "a fault after the end does not matter", got=on[k])
                continue
            reached = (it["tau"] - it["t1"]) * it["sign"] <= 0
            mon.ok(on[k] != "successful", "a solve into a non-finite vector field is not reported successful", got=on[k], tau=it["tau"], t1=it["t1"])
            mon.event("nonfinite")
            if mode.endswith("dtmin"):
                mon.event("minimum_step", on[k] == "dt_min_reached")
            allowed = {"dt_min_reached", "max_steps_reached"} if "dtmin" in mode else {"max_steps_reached", "dt_min_reached"}
            mon.ok(on[k] in allowed or on[k] in IMPL_FAIL, "the failure has its own result", got=on[k], mode=mode)
            sg = it["sign"]
            acc = lo["keep"]
            mon.ok(np.all(lo["t0"][acc] * sg * sg <= it["tau"] * sg + 1e-12 * 0 + 1e-9), "no step is accepted from within the non-finite region", tau=it["tau"])
            mon.ok(np.isfinite(lo["y1"][acc]).all(), "accepted values are finite")
            # until an attempt comes near the fault the solve is the healthy one
            span = lo["t0"] * sg + 1.3 * (lo["t1"] - lo["t0"]) * sg
            near = np.where((span - it["tau"]) * sg >= 0)[0]
            n = min(near[0] if len(near) else len(lo["t0"]), len(lr["t0"]))
            if fr_same(mode, it):
                sc = 1 + np.abs(lr["y1"]).max()
                mon.close(lo["t1"][:n], lr["t1"][:n], "attempts before the fault are those of the healthy solve", atol=1e-7)
                mon.close(lo["y1"][:n], lr["y1"][:n], "values before the fault are those of the healthy solve", rtol=1e-7, atol=1e-7 * sc)
                mon.event("prefix_values", n)
            # everything saved is finite and within tolerance of the healthy solution; nothing is saved later
            tl = lo["t1"][acc][-1] * sg if acc.any() else it["t0"]
            tt, yy = np.asarray(out.ts[1])[k], _rows(out.ys[1])[k]
            fin = np.isfinite(tt)
            mon.ok(np.all(((it["ts"] - tl) * sg <= 1e-12) >= fin), "nothing is saved beyond the last accepted step", ts=tt.tolist(), last=tl)
            mon.ok(np.isfinite(yy[fin]).all() and not np.isfinite(yy[~fin]).any(), "saved values are finite exactly where times are")
            if not s.startswith("sde:"):
                safe = fin & ((it["ts"] - it["tau"]) * sg < 0)
                sc = 1 + np.abs(lr["y1"]).max()
                mon.close(yy[safe], _rows(ref.ys[1])[k][safe], "values saved before the fault are right", atol=3000 * it["rtol"] * sc if s != "ReversibleHeun" else 3 * sc)
            mon.close(np.asarray(out.ts[2])[k][0], tl, "the final time saved is that of the last accepted step", atol=1e-9)
            mon.equal(int(np.asarray(out.stats["num_accepted_steps"])[k]), int(acc.sum()), "statistics: accepted")
            mon.equal(int(np.asarray(out.stats["num_steps"])[k]), len(acc), "statistics: attempts")


def fr_same(mode, it):
    return "auto" not in mode or abs(it["tau"] - it["t0"]) > 0.3 * it["L"]


# ------------------------------------------------------------------ one stage of one fixed implicit step fails
def run_stage(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import optimistix as optx

    s = p["s"]
    rng = _rng(mon, name)
    rf = dfx.VeryChord(rtol=1e-5, atol=1e-6) if p["rf"] == "verychord" else optx.Newton(rtol=1e-8, atol=1e-9)
    solver = _solver(s, rf)
    # where the implicit part is evaluated within a step, observed
    seen = []
    it0 = _inst(rng, s)

    def spy(t, y, a):
        jax.debug.callback(lambda v: seen.append(float(v)), t)
        return 0.0
    a0 = jtu.tree_map(jnp.asarray, it0["args"])
    st = solver.init(_problem(s), 0.0, 1.0, jnp.asarray(it0["y0"]), a0)
    jax.block_until_ready(solver.step(_problem(s, spy), jnp.asarray(0.0), jnp.asarray(0.01), jnp.asarray(it0["y0"]), a0, st, False)[0])
    jax.effects_barrier()
    cs = sorted({round(v / 0.01, 6) for v in seen})
    if s.startswith("Half"):
        # the full step only serves the error estimate: faults that only it sees need not fail the step
        inner = _solver(s[5:-1], rf)
        seen.clear()
        st = inner.init(_problem(s), 0.0, 1.0, jnp.asarray(it0["y0"]), a0)
        jax.block_until_ready(inner.step(_problem(s, spy), jnp.asarray(0.0), jnp.asarray(0.01), jnp.asarray(it0["y0"]), a0, st, False)[0])
        jax.effects_barrier()
        c1 = sorted({round(v / 0.01, 6) for v in seen})
        cs = sorted({c / 2 for c in c1} | {0.5 + c / 2 for c in c1})
        full = [c for c in c1 if min(abs(c - x) for x in cs) > 0.02]
    else:
        full = []
    cs = np.array(cs)
    mon.case((name, "stages"), nontrivial=True, stages=cs)
    mon.ok(len(cs) >= 1 and cs.max() > 0, "stages observed", stages=cs)
    S = 6
    elems = []
    for n in range(S):
        for c in cs:
            if c > 0:
                elems.append((n, c))
    B = len(elems)
    eps = 2e-3
    insts = []
    for b, (n, c) in enumerate(elems):
        it = _inst(np.random.default_rng([mon.seed, b % 7]), s)
        it["h"] = it["sign"] * it["L"] / S
        it["lo"], it["hi"] = (n + c - eps) * it["h"], (n + c + eps) * it["h"]
        it["bad"] = np.where(np.arange(D) == b % D, np.nan if b % 3 else np.inf, 0.0)
        it["mask"] = ~np.isfinite(it["bad"])
        if p["rf"] == "verychord":
            it["args"]["c"] = it["args"]["c"] * 0   # linear: its two iterations must do
        insts.append(it)
    from dv.rec import stack
    batch = jtu.tree_map(jnp.asarray, stack(insts))

    @eqx.filter_jit
    def go(batch):
        def one(it):
            def poison(t, y, a):
                u = (t - it["t0"]) / it["h"]
                return jnp.where((u > it["lo"] / it["h"]) & (u < it["hi"] / it["h"]) & it["mask"], it["bad"], 0.0)
            sol = dfx.diffeqsolve(_problem(s, poison), solver, it["t0"], it["t1"], it["h"], it["y0"], it["args"],
                                  saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=it["ts"])]), max_steps=S + 2, throw=False)
            ref = dfx.diffeqsolve(_problem(s), solver, it["t0"], it["t1"], it["h"], it["y0"], it["args"], saveat=dfx.SaveAt(t0=True, steps=True), max_steps=S + 2, throw=False)
            return sol, ref
        return jax.vmap(one)(batch)

    sol, ref = go(batch)
    nm, rm = _rnames(sol.result, B), _rnames(ref.result, B)
    for b, (n, c) in enumerate(elems):
        it = insts[b]
        if rm[b] != "successful":
            mon.ok(False, "the healthy implicit solve succeeds", got=rm[b])
            continue
        # the first step that evaluates there
        hits = [m for m in range(S) if np.any(np.abs(m + cs - (n + c)) < eps * 0.99)]
        first = hits[0]
        mon.case((name, n, float(c)), nontrivial=True, step=n, stage=float(c), sign=it["sign"])
        mon.event("stage_faults")
        mon.ok(nm[b] in IMPL_FAIL, "an implicit stage that cannot be solved fails the solve", got=nm[b], step=n, stage=float(c))
        got = int(np.asarray(sol.stats["num_steps"])[b])
        if nm[b] in IMPL_FAIL:
            mon.ok(got == first + 1, "the solve ends on the step whose implicit stage failed", got=got, want=first + 1, stage=float(c))
        tt, yy = np.asarray(sol.ts[0])[b], _rows(sol.ys[0])[b]
        sc = 1 + np.abs(np.where(np.isfinite(_rows(ref.ys)[b]), _rows(ref.ys)[b], 0)).max()
        mon.close(yy[: first + 1], _rows(ref.ys)[b][: first + 1], "values of the steps before the failure are right", rtol=1e-6, atol=1e-6 * sc)
        mon.event("prefix_values", first + 1)
        mon.ok(not np.isfinite(tt[first + 2:]).any(), "no steps saved after the failed one", ts=tt.tolist())
        t2 = np.asarray(sol.ts[1])[b]
        lim = it["t0"] + (first + 1) * it["h"]
        mon.ok(not np.isfinite(t2[(it["ts"] - lim) * it["sign"] > 1e-9]).any(), "no times saved after the failed step", ts=t2.tolist())
        before = (it["ts"] - (it["t0"] + first * it["h"])) * it["sign"] < -1e-9
        mon.ok(np.isfinite(t2[before]).all(), "times before the failed step are saved")
    if full:
        mon.event("half_full_step_only", len(full))


# ------------------------------------------------------------------ implicit equations without a solution
def run_unsolvable(name, p, mon):
    """y' = kappa (y^2 + 1) from y0: y1 = y0 + h kappa (y1^2 + 1) has no real solution once h is too large."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import optimistix as optx

    from dv.rec import record, stack

    s = p["s"]
    rng = _rng(mon, name)
    B = 6
    # exact solution tan(kappa t + c)
    insts = [dict(k=rng.uniform(0.8, 1.2), c=rng.uniform(-1.2, -0.8), t1=rng.uniform(1.5, 1.9), n=np.float64(1)) for _ in range(B)]
    insts[-1]["t1"] = 1.0
    batch = jtu.tree_map(jnp.asarray, stack([{k: np.float64(v) for k, v in i.items()} for i in insts]))
    for rfn in ("verychord", "newton"):
        rf = dfx.VeryChord(rtol=1e-6, atol=1e-7) if rfn == "verychord" else optx.Newton(rtol=1e-8, atol=1e-8)
        solver = _solver(s, rf)

        @eqx.filter_jit
        def go(batch, adaptive):
            def one(it):
                vf = lambda t, y, a: it["k"] * (y ** 2 + 1)  # noqa: E731
                ctrl = record(dfx.PIDController(rtol=1e-3, atol=1e-4, dtmin=1e-7, force_dtmin=False), 400) if adaptive else record(dfx.ConstantStepSize(), 400)
                return dfx.diffeqsolve(dfx.ODETerm(vf), solver, 0.0, it["t1"], 1.0 if adaptive else it["t1"] / 2, jnp.tan(it["c"])[None], None,
                                       saveat=dfx.SaveAt(t1=True, controller_state=True), stepsize_controller=ctrl, max_steps=400, throw=False)
            return jax.vmap(one)(batch)

        out = go(batch, False)
        nm = _rnames(out.result, B)
        for b, it in enumerate(insts):
            mon.case((name, rfn, b, "fixed"), nontrivial=True, **it)
            lg = _np_log(out.controller_state, b)
            if s == "ImplicitEuler":
                y, h, first = np.tan(it["c"]), it["t1"] / 2, None
                margin = np.inf
                for n in range(2):
                    disc = 1 - 4 * h * it["k"] * (y + h * it["k"])
                    margin = min(margin, abs(disc))
                    if disc < 0:
                        first = n
                        break
                    y = (1 - np.sqrt(disc)) / (2 * h * it["k"])
                if margin < 0.05:
                    continue
                if first is not None:
                    mon.ok(nm[b] in IMPL_FAIL, "an unsolvable implicit step fails the solve", got=nm[b], disc=float(disc))
                    ns = int(np.asarray(out.stats["num_steps"])[b])
                    mon.ok(ns == first + 1 if rfn == "newton" else ns <= first + 1, "the solve ends on the unsolvable step", got=ns, want=first + 1)
                    mon.event("unsolvable_fixed")
            if nm[b] == "successful" and s == "ImplicitEuler":
                _residual(mon, lg, it, 1e-4)
            mon.event("unsolvable_fixed", nm[b] in IMPL_FAIL)
        out = go(batch, True)
        nm = _rnames(out.result, B)
        for b, it in enumerate(insts):
            mon.case((name, rfn, b, "adaptive"), nontrivial=True, **it)
            mon.ok(nm[b] == "successful", "adaptive steps get past large steps whose implicit equation has no solution", got=nm[b])
            lg = _np_log(out.controller_state, b)
            if nm[b] == "successful":
                ex = np.tan(it["k"] * it["t1"] + it["c"])
                mon.close(np.asarray(out.ys)[b][0, 0], ex, "adaptive implicit solve is accurate", rtol=0.3 if s == "ImplicitEuler" else 0.03, atol=0.05)
                mon.event("recovered")
                if s == "ImplicitEuler":
                    _residual(mon, lg, it, 1e-4)


def _residual(mon, lg, it, tol):
    """implicit Euler: every accepted step solves its equation"""
    a = lg["keep"]
    h = (lg["t1"] - lg["t0"])[a]
    y0, y1 = lg["y0"][a][:, 0], lg["y1"][a][:, 0]
    r = y1 - y0 - h * it["k"] * (y1 ** 2 + 1)
    mon.close(r, np.zeros_like(r), "implicit equation of an accepted step is solved", atol=tol * (1 + np.abs(y1).max()))
    mon.event("residuals", len(r))


# ------------------------------------------------------------------ recoverable faults
def run_recover(name, p, mon):
    """vector fields that are only defined on part of the space: an overlong attempt leaves it, is rejected, and the solve recovers"""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    s = p["s"]
    rng = _rng(mon, name)
    B = 8
    k, y0, t0 = rng.uniform(0.5, 1.5, B), rng.uniform(1.0, 2.0, B), rng.uniform(-1, 1, B)
    dur = 2 * np.sqrt(y0) / k * rng.uniform(0.6, 0.85, B)
    sg = np.where(np.arange(B) % 2, 1.0, -1.0)
    which = np.arange(B) % 2 == 0
    rtol = RTOL.get(s, 1e-5) * 0.1

    @eqx.filter_jit
    def go(k, y0, t0, dur, sg, which):
        def one(k, y0, t0, dur, sg, which):
            # y' = -k sqrt(y) (NaN once y < 0), in whichever direction; or the same through a log
            f = lambda t, y, a: sg * jnp.where(which, -k * jnp.sqrt(y), -k * jnp.exp(0.5 * jnp.log(y)))  # noqa: E731
            terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: 0.0 * y), dfx.ODETerm(f)) if s == "KenCarp3" else dfx.ODETerm(f)
            return dfx.diffeqsolve(terms, _solver(s), t0, t0 + sg * dur, sg * dur * 0.99, jnp.stack([y0, y0 * 1.3]), None, saveat=dfx.SaveAt(ts=t0 + sg * dur * jnp.linspace(0.1, 1, 6)),
                                   stepsize_controller=dfx.PIDController(rtol=rtol, atol=rtol), max_steps=400, throw=False)
        return jax.vmap(one)(k, y0, t0, dur, sg, which)

    # make the first attempt hopeless for every solver: an extra, faster clock
    out = go(*map(jnp.asarray, (k, y0, t0, dur, sg, which)))
    nm = _rnames(out.result, B)
    fr = np.linspace(0.1, 1, 6)
    for b in range(B):
        mon.case((name, b), nontrivial=True, k=k[b], y0=y0[b], rejected=int(np.asarray(out.stats["num_rejected_steps"])[b]))
        mon.ok(nm[b] == "successful", "a solve that can avoid the non-finite region succeeds", got=nm[b])
        u = fr * dur[b]
        ex = np.stack([(np.sqrt(y0[b]) - k[b] * u / 2) ** 2, (np.sqrt(1.3 * y0[b]) - k[b] * u / 2) ** 2], -1)
        mon.close(np.asarray(out.ys)[b], ex, "and is accurate", atol=1e3 * rtol if s != "ReversibleHeun" else 1.0)
        mon.event("recovered")


# ------------------------------------------------------------------ user components that fail on schedule
_CLS = {}


def _classes():
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp

    if _CLS:
        return _CLS

    class FailCtrl(dfx.AbstractStepSizeController):
        """constant steps; on attempt `when` returns result `code` and decides `keep`"""
        dt: Any
        when: Any
        keep: Any
        code: Any = eqx.field(static=True)

        def wrap(self, direction):
            return self

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + self.dt, jnp.array(0)

        def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
            now = controller_state == self.when
            keep = jnp.where(now, self.keep, True)
            tp = jnp.where(keep, t1, t0)
            res = dfx.RESULTS.where(now, getattr(dfx.RESULTS, self.code), dfx.RESULTS.successful)
            return keep, tp, tp + self.dt, False, controller_state + 1, res

    class FailSolver(dfx.AbstractSolver):
        """`inner`, reporting failure on steps that start in [lo, hi)"""
        inner: Any
        lo: Any
        hi: Any
        code: Any = eqx.field(static=True)

        @property
        def term_structure(self):
            return self.inner.term_structure

        @property
        def interpolation_cls(self):
            return self.inner.interpolation_cls

        def order(self, terms):
            return self.inner.order(terms)

        def error_order(self, terms):
            return self.inner.error_order(terms)

        def init(self, terms, t0, t1, y0, args):
            return self.inner.init(terms, t0, t1, y0, args)

        def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
            y1, err, d, st, res = self.inner.step(terms, t0, t1, y0, args, solver_state, made_jump)
            hit = (t0 >= self.lo) & (t0 < self.hi)
            res = dfx.RESULTS.where(hit, getattr(dfx.RESULTS, self.code), res)
            return y1, err, d, st, res

        def func(self, terms, t0, y0, args):
            return self.inner.func(terms, t0, y0, args)

    class RejSolver(FailSolver):
        """reports failure together with an infinite error for steps longer than `lo`: such attempts are rejected"""

        def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
            y1, err, d, st, res = self.inner.step(terms, t0, t1, y0, args, solver_state, made_jump)
            hit = (t1 - t0) > self.lo
            err = err + jnp.where(hit, jnp.inf, 0.0)
            y1 = y1 + jnp.where(hit, jnp.nan, 0.0)
            return y1, err, d, st, dfx.RESULTS.where(hit, getattr(dfx.RESULTS, self.code), res)

    _CLS.update(ctrl=FailCtrl, solver=FailSolver, rej=RejSolver)
    return _CLS


def run_user(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import stack

    C = _classes()
    w = p["w"]
    rng = _rng(mon, name)
    S = 9
    insts = []
    for b in range(8):
        it = _inst(rng, "Tsit5", sign=1.0 if w == "solver" or b % 2 else -1.0)
        it["when"] = np.int64(b % S)
        it["keep"] = bool(rng.integers(2))
        insts.append(it)
    batch = jtu.tree_map(jnp.asarray, stack(insts))
    B = len(insts)
    for code in ("dt_min_reached", "nonlinear_divergence", "internal_error") if w in ("controller", "solver") else ("nonlinear_divergence",):
        @eqx.filter_jit
        def go(batch):
            def one(it):
                sa = dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=it["ts"]), dfx.SubSaveAt(t1=True)])
                h = it["L"] / S
                kw = dict(y0=it["y0"], args=it["args"], saveat=sa, max_steps=S + (400 if w == "rejected" else 60), throw=False)
                t = _problem("Tsit5")
                ref = dfx.diffeqsolve(t, dfx.Tsit5(), it["t0"], it["t1"], it["sign"] * h, **kw)
                if w == "controller":
                    out = dfx.diffeqsolve(t, dfx.Tsit5(), it["t0"], it["t1"], it["sign"] * h, stepsize_controller=C["ctrl"](h, it["when"], it["keep"], code), **kw)
                elif w == "solver":
                    lo = it["t0"] + (it["when"] - 0.5) * h
                    out = dfx.diffeqsolve(t, C["solver"](dfx.Tsit5(), lo, lo + h, code), it["t0"], it["t1"], h, **kw)
                elif w == "rejected":
                    out = dfx.diffeqsolve(t, C["rej"](dfx.Tsit5(), h, h, code), it["t0"], it["t1"], it["sign"] * h * 5, stepsize_controller=dfx.PIDController(rtol=1e-6, atol=1e-8), **kw)
                else:
                    import optimistix as optx
                    sv = dfx.Kvaerno3(root_finder=dfx.with_stepsize_controller_tols(optx.Newton)()) if hasattr(dfx, "with_stepsize_controller_tols") else dfx.Kvaerno3()
                    # the default tolerances: a root finder allowed a single iteration cannot converge on a nonlinear stage
                    sv = dfx.Kvaerno3(root_finder=optx.Newton(1e-12, 1e-12), root_find_max_steps=1)
                    out = dfx.diffeqsolve(t, sv, it["t0"], it["t1"], it["sign"] * h, **kw)
                return ref, out
            return jax.vmap(one)(batch)

        ref, out = go(batch)
        nm = _rnames(out.result, B)
        for b, it in enumerate(insts):
            mon.case((name, code, b), nontrivial=True, when=int(it["when"]), keep=it["keep"])
            tt, yy = np.asarray(out.ts[0])[b], _rows(out.ys[0])[b]
            rt, ry = np.asarray(ref.ts[0])[b], _rows(ref.ys[0])[b]
            ns = int(np.asarray(out.stats["num_steps"])[b])
            n = int(it["when"])
            sc = 1 + np.abs(ry[np.isfinite(rt)]).max()
            if w == "rejected":
                mon.ok(nm[b] == "successful", "a failure on a rejected attempt does not fail the solve", got=nm[b])
                mon.event("rejected_failures_ignored", int(np.asarray(out.stats["num_rejected_steps"])[b]) > 0)
                mon.close(_rows(out.ys[2])[b][0], ry[np.isfinite(rt)][-1], "and the solve is right", atol=1e-2 * sc)
                continue
            if w == "rootfinder":
                mon.ok(nm[b] in IMPL_FAIL, "a root finder that runs out of iterations fails the solve", got=nm[b])
                mon.equal(ns, 1, "on the step where it did")
                mon.event("user_failures")
                continue
            kept = it["keep"] if w == "controller" else True
            mon.event("user_failures")
            mon.ok(nm[b] == code, "the result of the failing component is the result of the solve", got=nm[b], want=code)
            mon.equal(ns, n + 1, "the solve stops on the failing attempt")
            a = n + 1 if kept else n
            mon.equal(int(np.asarray(out.stats["num_accepted_steps"])[b]), a, "accepted steps")
            mon.close(tt[: n + 1], rt[: n + 1], "times before the failure", atol=1e-9)
            mon.close(yy[: n + 1], ry[: n + 1], "values before the failure", rtol=1e-9, atol=1e-9 * sc)
            mon.ok(not np.isfinite(tt[a + 1:]).any(), "nothing saved after the failure", ts=tt.tolist())
            mon.event("prefix_values", n + 1)
            t2, y2 = np.asarray(out.ts[1])[b], _rows(out.ys[1])[b]
            lim = it["t0"] + it["sign"] * a * it["L"] / S
            want = (it["ts"] - lim) * it["sign"] <= 0
            edge = np.abs(it["ts"] - lim) < 1e-9
            mon.ok(np.all((np.isfinite(t2) == want) | edge), "exactly the requested times up to the end of the last accepted step are saved", got=t2.tolist(), lim=lim)
            mon.close(y2[np.isfinite(t2) & want], _rows(ref.ys[1])[b][np.isfinite(t2) & want], "values at requested times", rtol=1e-8, atol=1e-8 * sc)
            mon.close(np.asarray(out.ts[2])[b][0], lim, "final time is the end of the last accepted step", atol=1e-9)


# ------------------------------------------------------------------ exceptions
def run_throw(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    rng = _rng(mon, name)
    it = jtu.tree_map(jnp.asarray, _inst(rng, "Tsit5"))

    def case(kind, throw, it, tau):
        kw = dict(saveat=dfx.SaveAt(ts=it["ts"]), throw=throw)
        poison = lambda t, y, a: jnp.where((t - tau) * it["sign"] > 0, jnp.nan, 0.0) * jnp.ones(D)  # noqa: E731
        pid = dict(stepsize_controller=dfx.PIDController(rtol=1e-5, atol=1e-6, dtmin=1e-3, force_dtmin=False))
        if kind == "budget":
            return dfx.diffeqsolve(_problem("Tsit5"), dfx.Tsit5(), it["t0"], it["t1"], it["sign"] * it["L"] / 20.5, it["y0"], it["args"], max_steps=20, **kw)
        if kind == "exact":
            return dfx.diffeqsolve(_problem("Tsit5"), dfx.Tsit5(), it["t0"], it["t1"], it["sign"] * it["L"] / 20.5, it["y0"], it["args"], max_steps=21, **kw)
        if kind == "dtmin":
            return dfx.diffeqsolve(_problem("Tsit5", poison), dfx.Tsit5(), it["t0"], it["t1"], it["dt0"], it["y0"], it["args"], max_steps=500, **pid, **kw)
        if kind == "implicit":
            return dfx.diffeqsolve(_problem("Kvaerno3", poison), _solver("Kvaerno3"), it["t0"], it["t1"], it["sign"] * it["L"] / 8, it["y0"], it["args"], max_steps=50, **kw)
        if kind == "event":
            return dfx.diffeqsolve(_problem("Tsit5"), dfx.Tsit5(), it["t0"], it["t1"], it["dt0"], it["y0"], it["args"], max_steps=500,
                                   event=dfx.Event(lambda t, y, args, **k: (t - tau) * it["sign"] > 0), **kw)

    tau = it["t0"] + 0.6 * (it["t1"] - it["t0"])
    never = it["t0"] + 5.0 * (it["t1"] - it["t0"])
    MSG = dict(budget="maximum number of solver steps", dtmin="minimum step size", implicit="")
    for kind in (p["k"],):
        for wrap in ("jit", "vmap", "eager"):
            fails = kind in ("budget", "dtmin", "implicit")
            if wrap == "eager" and kind not in ("budget", "dtmin"):
                continue
            if wrap == "vmap":
                its = jtu.tree_map(lambda x: jnp.stack([x, x, x]), it)
                taus = jnp.stack([never, tau, never]) if kind != "budget" else jnp.stack([tau] * 3)
                f = eqx.filter_jit(lambda throw, i, t: jax.vmap(lambda a, b: case(kind, throw, a, b))(i, t))
                call = lambda throw: f(throw, its, taus)  # noqa: E731
            elif wrap == "jit":
                f = eqx.filter_jit(lambda throw, i, t: case(kind, throw, i, t))
                call = lambda throw: f(throw, it, tau)  # noqa: E731
            else:
                call = lambda throw: case(kind, throw, it, tau)  # noqa: E731
            mon.case((name, kind, wrap), nontrivial=True)
            quiet = call(False)
            raised, msg = False, ""
            try:
                loud = jax.block_until_ready(jtu.tree_leaves(eqx.filter(call(True), eqx.is_array)))
            except Exception as e:
                raised, msg = True, str(e)
            mon.event("throws")
            mon.ok(raised == fails, "an exception is raised exactly for a failed solve", kind=kind, wrap=wrap, raised=raised, msg=msg[:300])
            if raised and fails:
                mon.ok(MSG[kind] in msg, "the exception says what happened", kind=kind, msg=msg[:500])
            if not raised and not fails:
                for a, b in zip(loud, jtu.tree_leaves(eqx.filter(quiet, eqx.is_array))):
                    mon.equal(a, b, "throw=True returns what throw=False returns")
            names = _rnames(quiet.result, 3) if wrap == "vmap" else [_rname(quiet.result)]
            if kind == "budget":
                mon.ok(all(n == "max_steps_reached" for n in names), "result value", got=list(names))
            if kind == "exact":
                mon.ok(all(n == "successful" for n in names), "result value", got=list(names))
            if kind in ("dtmin", "event", "implicit"):
                fn = lambda n: {"dtmin": n == "dt_min_reached", "event": n == "event_occurred", "implicit": n in IMPL_FAIL}[kind]  # noqa: E731
                want = [False, True, False] if wrap == "vmap" else [True]
                mon.ok(all((fn(n) if w else n == "successful") for n, w in zip(names, want)), "result values", got=list(names))


# ------------------------------------------------------------------ too many rejections to remember
def run_rejects(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    from dv.rec import record, stack

    rng = _rng(mon, name)
    B = 8
    insts = [dict(_inst(rng, "Heun"), dt=rng.uniform(0.2, 0.9), rtol=np.float64(10.0 ** rng.uniform(-7, -3))) for _ in range(B)]
    batch = jtu.tree_map(jnp.asarray, stack(insts))
    for cap in (1, 2, 4):
        @eqx.filter_jit
        def go(batch):
            def one(it):
                inner = dfx.PIDController(rtol=it["rtol"], atol=it["rtol"], factormin=0.5)
                kw = dict(saveat=dfx.SaveAt(t1=True, controller_state=True), max_steps=1000, throw=False)
                out = dfx.diffeqsolve(_problem("Heun"), dfx.Bosh3(), it["t0"], it["t1"], it["sign"] * it["L"] * it["dt"], it["y0"], it["args"],
                                      stepsize_controller=record(dfx.ClipStepSizeController(inner, store_rejected_steps=cap), 1000), **kw)
                return out
            return jax.vmap(one)(batch)
        out = go(batch)
        nm = _rnames(out.result, B)
        for b in range(B):
            lg = _np_log(out.controller_state, b)
            # remembered rejections: pushed when rejected, dropped once stepped to
            stack_, over = [], None
            for r in range(len(lg["keep"])):
                if lg["keep"][r]:
                    stack_ = [x for x in stack_ if x > lg["t1"][r] + 1e-13]
                else:
                    stack_.append(lg["t1"][r])
                    if len(stack_) > cap:
                        over = r
                        break
            mon.case((name, cap, b), nontrivial=over is not None, attempts=len(lg["keep"]), overflow=over)
            if over is not None:
                mon.ok(nm[b] == "max_steps_rejected", "running out of room for rejected steps is reported", got=nm[b], cap=cap)
                mon.equal(len(lg["keep"]), over + 1, "the solve stops there")
                mon.event("user_failures")
            else:
                mon.ok(nm[b] == "successful", "enough room for rejected steps: success", got=nm[b], cap=cap)
