"""C09: events stop the solve at the first trigger, at the right time and state.

The same solve is done without the event, every attempted step logged; the conditions are evaluated
offline on that history, which says on which step (if any) the solve has to stop, why, when and with what
output. The real solve with the event is compared with that.
"""
import zlib

import numpy as np

PROPERTY = "C09"
RULE = ("one evaluation = one element of a batched solve with an event, judged against the logged history of the same "
        "solve without the event; distinct = (configuration, step of the trigger, reported mask, number of outputs); "
        "non-trivial = an event occurred, or the history has at least two accepted steps and none occurs")
ASSUMPTIONS = ["histories in which a condition is within rounding of a sign change at a step end are skipped",
               "root location is judged on steps on which the condition is monotone"]
MIN_EVENTS = {"event_solves": 90, "no_event_solves": 25, "roots_checked": 60, "boolean_events": 20,
              "later_condition_reported": 10, "outputs_truncated": 60, "failure_with_event": 3, "cond_calls_seen": 8,
              "steady_states": 6, "start_events": 3}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


IVS = [(0.0, 2.0), (1.5, -0.7), (-3.0, -1.0), (10.0, 8.0)]


# conditions: (t, y flat, args) -> value; p = args["p"]
def c_y0(t, y, a, **k): return y[0] - a["p"][0]
def c_y1(t, y, a, **k): return y[1] - a["p"][1]
def c_t(t, y, a, **k): return t - a["p"][2]
def c_mix(t, y, a, **k): return t * y[0] + y[1] - a["p"][3]
def c_sin(t, y, a, **k):
    import jax.numpy as jnp
    return jnp.sin(4.0 * t + 6 * a["p"][0])
def b_y0(t, y, a, **k): return y[0] > a["p"][0]
def b_y1(t, y, a, **k): return y[1] < a["p"][1]
def b_t(t, y, a, **k): return (t - a["p"][2]) * a["d"] > 0
def c_vf(t, y, a, *, terms, **k):  # extremum of the first component, through the user's own terms
    return terms.vf(t, y, a)[0]
def c_vf_off(t, y, a):
    from dv import rec
    return rec.vf(t, y, a)[0]
def c_frac(t, y, a, *, t0, t1, **k):  # fraction of the user's interval
    return (t - t0) / (t1 - t0) - a["p"][4]
def c_frac_off(t, y, a): return (t - a["T0"]) / (a["T1"] - a["T0"]) - a["p"][4]


OFF = {c_vf: c_vf_off, c_frac: c_frac_off}
SETS = {
    "y0": (c_y0, None),
    "by0": (b_y0, None),
    "up": (c_sin, True),
    "down": (c_sin, False),
    "tree": ({"b": c_t, "a": [b_y1, c_y0]}, None),
    "dirs": ((c_mix, c_y1, b_y0), (None, True, False)),
    "dirs2": ((c_sin, c_sin, {"z": c_y0, "w": c_t}), (False, True, {"z": True, "w": None})),
    "bools": ([b_t, b_y0, b_y1], None),
    "vf": (c_vf, None),
    "frac": ((c_frac, c_y0), None),
    "bt_r": ((b_t, c_t), None),  # the same step: boolean is listed first
    "r_bt": ((c_t, b_t), None),
    "exact": ((c_t, c_y0), None),
}


def tasks(tier, seed):
    T = []
    rows = [
        # solver, ctrl, iv, set, root
        ("Tsit5", "pid", 0, "y0", "newton"), ("Tsit5", "pid", 1, "tree", "newton"), ("Dopri5", "pid", 2, "up", "newton"),
        ("Dopri5", "pid", 3, "down", "newton"), ("Heun", "const", 1, "dirs", "newton"), ("Bosh3", "clip", 0, "dirs2", "newton"),
        ("Tsit5", "stepto", 1, "y0", "bisect"), ("Kvaerno3", "pid", 0, "y0", "newton"), ("KenCarp3", "pid", 1, "tree", None),
        ("Tsit5", "pid", 0, "tree", None), ("Euler", "const", 1, "dirs", None), ("Dopri8", "pid", 0, "by0", "newton"),
        ("Tsit5", "clip", 1, "bools", "newton"), ("Dopri5", "const", 0, "bt_r", "newton"), ("Ralston", "const", 1, "r_bt", "newton"),
        ("Tsit5", "pid", 1, "vf", "newton"), ("Dopri5", "pid", 0, "vf", None), ("Half(Heun)", "pid", 0, "frac", "newton"),
        ("Tsit5", "pid", 3, "frac", "newton"), ("ReversibleHeun", "const", 0, "y0", "newton"), ("LeapfrogMidpoint", "const", 1, "dirs2", None),
        ("SemiImplicitEuler", "const", 0, "y0", "newton"), ("Midpoint", "const", 2, "up", "bisect"), ("ImplicitEuler", "const", 0, "dirs", "newton"),
        ("sde", "const", 0, "dirs", "newton"), ("sde", "const", 1, "y0", "bisect"), ("Tsit5", "pidms", 0, "y0", "newton"),
        ("Heun", "constms", 1, "tree", "newton"), ("Bosh3", "pidms", 0, "tree", None), ("Tsit5", "pid32", 0, "y0", "newton"),
    ]
    if tier != "quick":
        rng = np.random.default_rng(seed * 7 + 1)
        sols = ["Tsit5", "Dopri5", "Dopri8", "Bosh3", "Heun", "Ralston", "Midpoint", "Kvaerno3", "Kvaerno5", "KenCarp4", "Sil3", "Half(Tsit5)", "ImplicitEuler"]
        for _ in range(170):
            s = str(rng.choice(sols))
            st = str(rng.choice(list(SETS)))
            rf = [None, "newton", "newton", "bisect"][rng.integers(4)]
            if rf == "bisect" and not callable(SETS[st][0]):
                rf = "newton"
            if st == "vf" and s in ("KenCarp4", "Sil3"):
                st = "mix" if "mix" in SETS else "y0"
            rows.append((s, str(rng.choice(["pid", "pid", "clip", "const", "stepto", "pidms", "constms"])), int(rng.integers(4)), st, rf))
    for i, (s, c, iv, st, rf) in enumerate(rows):
        T.append((f"ev-{i}-{s}-{c}-{st}-{rf}", dict(kind="ev", solver=s, ctrl=c, iv=iv, set=st, root=rf, i=i, _cost=2 if s.startswith(("K", "Sil", "Imp")) else 1)))
    for i in range(2 if tier == "quick" else 6):
        T.append((f"fail-{i}", dict(kind="fail", i=i)))
        T.append((f"seen-{i}", dict(kind="seen", i=i)))
        T.append((f"steady-{i}", dict(kind="steady", i=i)))
    T.append(("start", dict(kind="start")))
    return T


def run(name, p, mon):
    return dict(ev=run_ev, fail=run_fail, seen=run_seen, steady=run_steady, start=run_start)[p["kind"]](name, p, mon)


def _flatconds(cond, direction):
    import jax.tree_util as jtu

    cs = jtu.tree_leaves(cond, is_leaf=callable)
    if direction in (None, True, False):
        ds = [direction] * len(cs)
    else:
        ds = jtu.tree_leaves(direction, is_leaf=lambda x: x is None)
    return cs, ds


def trig(old, new, direction):
    """Does a real condition trigger between consecutive accepted step ends? None: too close to tell."""
    if min(abs(old), abs(new)) < 1e-7:
        return None
    if direction is None:
        return (old > 0) != (new > 0)
    if direction:
        return old < 0 and new > 0
    return old > 0 and new < 0


def run_ev(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    import jax.tree_util as jtu
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    T0, T1 = IVS[p["iv"]]
    d = 1 if T1 > T0 else -1
    L = abs(T1 - T0)
    B, D, NT = 8, 3, 11
    f32 = p["ctrl"].endswith("32")
    ft = np.float32 if f32 else np.float64
    tol = 2e-4 if f32 else 1e-7
    sde = p["solver"] == "sde"
    if sde:
        solver, kind = dfx.Heun(), "single"
    else:
        solver, kind, _, _ = rec.ode_solvers(fixed_tols=True)[p["solver"]]
    base = rec.norm_terms(kind, 1)
    ctrl = p["ctrl"].replace("32", "")
    ms = {"pidms": 12, "constms": 7}.get(ctrl)
    ctrl = ctrl.replace("ms", "")
    N = ms or (48 if ctrl != "pid" else 96)
    low = p["solver"] in ("Heun", "Half(Heun)", "ImplicitEuler", "Ralston", "Midpoint", "Bosh3", "Sil3", "Half(Euler)")
    pid = dfx.PIDController(rtol=1e-2 if low else (1e-4 if not f32 else 1e-3), atol=1e-3 if low else (1e-6 if not f32 else 1e-4))
    cond, direction = SETS[p["set"]]
    cs, ds = _flatconds(cond, direction)
    flaty = kind == "pair"
    wrapc = (lambda c: (lambda t, y, args, **k: c(t, rec.flat(y), args, **k))) if flaty else (lambda c: c)
    cond_used = jtu.tree_map(wrapc, cond, is_leaf=callable)
    rootf = {None: None, "newton": optx.Newton(rtol=1e-10 if not f32 else 1e-5, atol=1e-11 if not f32 else 1e-6),
             "bisect": optx.Bisection(rtol=1e-9, atol=1e-10, flip="detect")}[p["root"]]
    event = dfx.Event(cond_used, root_finder=rootf, direction=direction)
    steps = int(rng.integers(1, 4))
    bt0, bt1 = bool(rng.integers(2)), bool(rng.integers(2))

    def subs(ts):
        return {"ts": dfx.SubSaveAt(ts=ts), "st": dfx.SubSaveAt(t0=bt0, t1=bt1, steps=steps), "t1": dfx.SubSaveAt(t1=True, fn=lambda t, y, a: (t, y))}

    def one(y0, args, ts, dt, clipts, key, with_event):
        terms = base
        if sde:
            bm = dfx.VirtualBrownianTree(min(T0, T1), max(T0, T1), 1e-3, (D,), key)
            terms = dfx.MultiTerm(base, dfx.ControlTerm(lambda t, y, a: jnp.diag(0.5 * jnp.cos(y)), bm))
        if ctrl == "pid":
            c, dt0 = pid, dt
        elif ctrl == "clip":
            c, dt0 = dfx.ClipStepSizeController(pid, step_ts=clipts[:4], jump_ts=clipts[4:]), dt
        elif ctrl == "const":
            c, dt0 = dfx.ConstantStepSize(), dt
        else:
            st = T0 + (T1 - T0) * jnp.linspace(0, 1, 17) ** 1.3
            c, dt0 = dfx.StepTo(st.at[0].set(T0).at[-1].set(T1)), None
        saveat = dfx.SaveAt(subs=subs(ts), controller_state=True, dense=not with_event)
        return dfx.diffeqsolve(terms, solver, ft(T0), ft(T1), dt0, y0, args, saveat=saveat, stepsize_controller=rec.record(c, N),
                               max_steps=N, throw=False, event=event if with_event else None)

    cast = lambda tr: jtu.tree_map(lambda x: jnp.asarray(x, ft), tr)
    shared = rec.vf_args(rng, D, 1.2)
    arg = {k: np.stack([v] * B) for k, v in shared.items()}
    y0 = rec.stack([rec.y0_for(kind, rng, D) for _ in range(B)])
    fl = np.stack([np.asarray(rec.flat(rec.unbatch(y0, i))) for i in range(B)])
    P = np.stack([fl[:, 0] + rng.normal(size=B) * 0.5, fl[:, 1] + rng.normal(size=B) * 0.5, T0 + (T1 - T0) * rng.uniform(0.05, 1.3, size=B),
                  T0 * fl[:, 0] + fl[:, 1] + rng.normal(size=B), rng.uniform(0.1, 1.2, size=B)], 1)
    if p["set"] == "exact":  # root exactly on a step end of the fixed grid
        pass
    if p["set"] not in ("up", "down", "vf", "frac"):
        P[0, :] = P[1, :] = -50.0  # never
        P[0, 2] = P[1, 2] = T1 + d * 50.0
        P[0, 1] = P[1, 1] = -60.0
        P[0, 0] = P[1, 0] = 60.0
    arg.update(p=P, d=np.full(B, float(d)), T0=np.full(B, T0), T1=np.full(B, T1))
    arg, y0 = cast(arg), cast(y0)
    dt = jnp.asarray((T1 - T0) * np.where(rng.uniform(size=B) < 0.5, 1 / 16.0, rng.uniform(0.04, 0.12, size=B)) * (1.5 if ms else 1), ft)
    u = np.sort(rng.uniform(0, 1, size=(B, NT)), 1)
    ts = jnp.asarray(np.clip(T0 + (T1 - T0) * u, min(T0, T1), max(T0, T1)), ft)
    clipts = jnp.asarray(T0 + (T1 - T0) * rng.uniform(0.02, 0.98, size=(B, 7)), ft)
    keys = jr.split(jr.PRNGKey(int(rng.integers(1 << 30))), B)

    @eqx.filter_jit
    def both(*a):
        return jax.vmap(lambda *b: one(*b, False))(*a), jax.vmap(lambda *b: one(*b, True))(*a)

    ref, ev = both(y0, arg, ts, dt, clipts, keys)

    offc = [OFF.get(c, c) for c in cs]

    @eqx.filter_jit
    def probe(ref, args, tq, yq):
        """condition values on the step ends (tq, yq) given"""
        return jax.vmap(lambda a, t, y: jnp.stack([jax.vmap(lambda t, y: jnp.asarray(c(t, y, a), float))(t, y) for c in offc]))(args, tq, yq)

    @eqx.filter_jit
    def dense(ref, args, tq):
        def f(s, a, t):
            y = jax.vmap(lambda t: rec.flat(s.evaluate(t)))(t)
            return y, jnp.stack([jax.vmap(lambda t, y: jnp.asarray(c(t, y, a), float))(t, y) for c in offc])
        return jax.vmap(f)(ref, args, tq)

    isbool = [c.__name__.startswith("b_") for c in cs]
    logs = [rec.unlog(rec.unbatch(ref.controller_state, i)) for i in range(B)]
    M = N + 1
    tq, yq = np.full((B, M), T0, float), np.zeros((B, M, fl.shape[1]))
    hist = []
    for i in range(B):
        lg = logs[i]
        k = np.where(lg["keep"])[0]
        # user's time: the recorder sits inside, where time is multiplied by the direction
        tq[i, 0], yq[i, 0] = T0, np.asarray(rec.flat(rec.unbatch(y0, i)))
        tq[i, 1:len(k) + 1] = d * lg["tprev"][k]
        yq[i, 1:len(k) + 1] = lg["y1"][k]
        hist.append(k)
    vals = np.asarray(probe(ref, arg, jnp.asarray(tq), jnp.asarray(yq)))

    # what has to happen
    plan = []
    for i in range(B):
        na = len(hist[i])
        K = mask = None
        tie = False
        if any(isbool[c] and vals[i, c, 0] for c in range(len(cs))):
            K = 0
        else:
            for k in range(1, na + 1):
                tr = []
                for c in range(len(cs)):
                    if isbool[c]:
                        near = False
                        tr.append(bool(vals[i, c, k]))
                    else:
                        tr.append(trig(vals[i, c, k - 1], vals[i, c, k], ds[c]))
                if any(x is None for x in tr):
                    tie = True
                    break
                if any(tr):
                    K, mask = k, tr.index(True)
                    break
        if K == 0:
            mask = [bool(isbool[c] and vals[i, c, 0]) for c in range(len(cs))].index(True)
        plan.append((K, mask, tie))
    tq2 = np.full((B, 24), T0, float)
    for i in range(B):
        K, mask, tie = plan[i]
        if K:
            a, b = d * logs[i]["t0"][hist[i][K - 1]], d * logs[i]["t1"][hist[i][K - 1]]
            tq2[i, :22] = np.linspace(a, b, 22)
        tf = float(np.asarray(ev.ts["t1"])[i, 0])
        if np.isfinite(tf):
            tq2[i, 22] = tf
    yd, vd = dense(ref, arg, jnp.asarray(np.clip(tq2, min(T0, T1), max(T0, T1)), ft))
    yd, vd = np.asarray(yd), np.asarray(vd)
    h_ev = jtu.tree_map(np.asarray, (ev.ts, ev.ys, ev.stats))
    emask = [np.asarray(x) for x in jtu.tree_leaves(ev.event_mask)]
    fly = lambda tree, i: np.concatenate([np.asarray(x)[i].reshape(np.asarray(x).shape[1], -1) for x in jtu.tree_leaves(tree)], 1)

    occ, same = np.asarray(ev.result == dfx.RESULTS.event_occurred), np.asarray(ev.result == ref.result)
    for i in range(B):
        K, mask, tie = plan[i]
        if tie:
            mon.event("ties_skipped")
            continue
        lg, k = logs[i], hist[i]
        na = len(k)
        m = [bool(x[i]) for x in emask]
        ctx = dict(solver=p["solver"], ctrl=p["ctrl"], set=p["set"], root=p["root"], direction=d, element=i, trigger_step=K, which=mask)
        mon.case((name, i, K, mask), sample=dict(task=name, i=i, K=K, mask=mask, tf=h_ev[0]["t1"][i]), nontrivial=K is not None or na >= 2, **ctx)
        occurred = bool(occ[i])
        tf, yf = float(h_ev[0]["t1"][i, 0]), fly(h_ev[1]["t1"], i)
        tsave, ysave = np.asarray(ev.ts["t1"])[i, 0], yf[0]
        if K is None:
            mon.event("no_event_solves")
            mon.ok(not any(m), "no condition triggered but one is reported", mask=m)
            mon.ok(bool(same[i]), "result without an event differs from the result of the plain solve")
            tend = d * lg["tprev"][k[-1]] if na else T0
            if na and not bool(lg["jump"][k[-1]]):
                mon.close(tf, d * lg["t1"][k[-1]], "final time without an event", rtol=1e-6 if f32 else 1e-12, atol=1e-12)
            K2, tfin, yfin = na, tf, None
            yfin = yq[i, na]
            nsteps = int(lg["n"])
        else:
            mon.event("event_solves")
            if isbool[mask]:
                mon.event("boolean_events")
            if mask > 0:
                mon.event("later_condition_reported")
            mon.ok(m == [c == mask for c in range(len(cs))], "the reported condition is not the first listed that triggered", got=m, want=mask)
            if K == 0:
                mon.ok(occurred, "boolean condition true at the start did not stop the solve")
                mon.close(tf, T0, "final time of an event at the start", rtol=1e-12)
                mon.close(yf[0, -fl.shape[1]:], yq[i, 0], "state of an event at the start", rtol=1e-12)
                mon.event("start_in_batch")
                mon.ok(int(np.isfinite(h_ev[0]["st"][i]).sum()) == int(bt0) + int(bt1), "outputs of an event at the start", got=h_ev[0]["st"][i])
                mon.ok(int(np.isfinite(h_ev[0]["ts"][i]).sum()) == 0 or ts[i][0] == T0, "outputs after an event at the start")
                continue
            nsteps = int(k[K - 1]) + 1
            a, b = tq2[i, 0], tq2[i, 21]
            real = not isbool[mask]
            if p["root"] is not None and real:
                v = vd[i, mask, :22]
                dv = np.diff(v)
                mono = np.all(dv > 0) or np.all(dv < 0)
                if not mono or np.min(np.abs(dv)) < 0.15 * np.max(np.abs(dv)):
                    mon.event("nonmonotone_skipped")
                    continue
                mon.ok(occurred, "event not reported as the result")
                mon.event("roots_checked")
                mon.ok((tf - a) * d >= -1e-9 * L and (b - tf) * d >= -1e-9 * L, "final time outside the step of the event", tf=tf, step=[a, b])
                # |cond| at the final time, relative to its change over the step
                mon.le(abs(vd[i, mask, 22]) / abs(v[-1] - v[0]), 1e-6 if not f32 else 2e-2, "the triggering condition does not vanish at the final time", cond=vd[i, mask, 22], tf=tf)
                yfin = yd[i, 22]
            else:
                mon.ok(occurred, "event not reported as the result")
                mon.close(tf, d * lg["tprev"][k[K - 1]] if p["root"] is None else b, "final time is not the end of the step of the event", rtol=1e-6 if f32 else 1e-10, atol=1e-10)
                yfin = yq[i, K]
            tfin, K2 = tf, K
        mon.close(yf[0, -fl.shape[1]:], yfin, "final state is not the solution at the final time", rtol=tol, atol=tol * 10)
        mon.close(yf[0, 0], tf, "save function saw another final time", rtol=1e-12)
        st = h_ev[2]
        mon.ok(int(st["num_steps"][i]) == nsteps, "number of steps differs from the step of the event", got=int(st["num_steps"][i]), want=nsteps)
        mon.ok(int(st["num_accepted_steps"][i]) == K2, "number of accepted steps", got=int(st["num_accepted_steps"][i]), want=K2)
        # requested times
        q = np.asarray(ts, float)[i]
        rt, ry = np.asarray(ref.ts["ts"])[i], fly(ref.ys["ts"], i)
        gt, gy = h_ev[0]["ts"][i], fly(ev.ys["ts"], i)
        if K is not None:
            if np.min(np.abs(q - tf)) > 1e-6 * L:
                sel = (tf - q) * d > 0
                n = int(sel.sum())
                mon.event("outputs_truncated", int(n < len(q)))
                mon.close(gt[:n], q[:n], "requested times before the event", rtol=1e-12 if not f32 else 1e-6)
                mon.ok(bool(np.all(np.isinf(gt[n:]))), "output later than the event is reported", ts=gt, tf=tf)
                mon.close(gy[:n], ry[:n], "values at requested times before the event", rtol=tol, atol=tol * 10)
                mon.ok(bool(np.all(np.isinf(gy[n:]))), "values later than the event are reported")
        else:
            mon.close(gt, rt, "requested times", rtol=1e-12)
            mon.close(gy, ry, "values at requested times", rtol=tol, atol=tol * 10)
        # steps
        et, ey = [], []
        if bt0:
            et.append(T0); ey.append(yq[i, 0])
        for j in range(1, K2 + 1):
            if j % steps == 0 and j < K2:
                et.append(d * lg["t1"][k[j - 1]]); ey.append(yq[i, j])
        if K2 % steps == 0 or bt1:
            if K2 > 0 or bt1:
                et.append(tf); ey.append(yfin)
        gt, gy = h_ev[0]["st"][i], fly(ev.ys["st"], i)
        n = len(et)
        mon.ok(int(np.isfinite(gt).sum()) == n and bool(np.all(np.isfinite(gt[:n]))), "number of step outputs", got=gt, want=et)
        if int(np.isfinite(gt[:n]).sum()) == n and n:
            mon.close(gt[:n], np.array(et), "times of step outputs", rtol=1e-6 if f32 else 1e-9, atol=1e-6 if f32 else 1e-9)
            mon.close(gy[:n], np.array(ey), "values of step outputs", rtol=tol, atol=tol * 10)
        mon.event("outputs_checked", n)


def run_fail(name, p, mon):
    """An implicit step that cannot be solved, on the very step on which the condition becomes true."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    B = 6
    tc = jnp.asarray(rng.uniform(0.4, 1.6, size=B))
    d = 1 if p["i"] % 2 == 0 else -1
    back = [dfx.ImplicitEuler, dfx.Kvaerno3][p["i"] // 2 % 2](root_finder=optx.Newton(rtol=1e-8, atol=1e-8))

    def f(t, y, a):
        # no solution of the implicit equation beyond a: chattering
        return d * jnp.where(d * t > a, -300.0 * jnp.sign(y - 0.3) - 100.0, -y)

    def go(a, boolean, root, off, ev):
        conds = (lambda t, y, args, **k: d * t > args + off) if boolean else (lambda t, y, args, **k: d * t - args - off)
        return dfx.diffeqsolve(dfx.ODETerm(f), back, 0.0, 2.0 * d, 0.1 * d, jnp.array([1.0, 0.7]), a, stepsize_controller=dfx.ConstantStepSize(), max_steps=64,
                               throw=False, event=dfx.Event(conds, root_finder=optx.Newton(1e-6, 1e-6) if root else None) if ev else None)

    for boolean, root in [(True, False), (False, True), (False, False), (True, True)]:
        for off in (0.0, -0.25):
            f_ = eqx.filter_jit(lambda a: (jax.vmap(lambda x: go(x, boolean, root, off, True))(a), jax.vmap(lambda x: go(x, boolean, root, off, False))(a)))
            e, r = f_(tc)
            okr, same, occ = [np.asarray(x) for x in (dfx.is_successful(r.result), e.result == r.result, e.result == dfx.RESULTS.event_occurred)]
            for i in range(B):
                plain = bool(okr[i])
                mon.case((name, boolean, root, off, i), nontrivial=True, element=i, boolean=boolean, root=root, offset=off)
                mon.ok(not plain, "harness: the plain solve should fail")
                if off == 0.0:
                    mon.event("failure_with_event")
                    mon.ok(bool(same[i]), "an event on the failing step hides the failure")
                else:
                    mon.event("event_before_failure")
                    mon.ok(bool(occ[i]), "an event before the failing step is not reported")


def run_seen(name, p, mon):
    """What the condition functions are called with."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import optimistix as optx
    from dv import rec

    rng = _rng(mon, name)
    T0, T1 = [(0.0, 2.0), (3.0, 1.5)][p["i"] % 2]
    D = 3
    a = rec.vf_args(rng, D, 1.0)
    a["p"] = np.array([1e3 + p["i"]])
    seen = []
    dt0 = (T1 - T0) / 10
    tsv = np.linspace(T0, T1, 5)
    kw = {}

    def cb(t, y, p_, t0, t1, dt0_, v):
        seen.append((float(t), np.asarray(y), float(p_[0]), float(t0), float(t1), float(dt0_), np.asarray(v)))

    def cond(t, y, args, *, terms, solver, t0, t1, dt0, saveat, stepsize_controller, max_steps):
        kw.update(solver=solver, max_steps=max_steps, ctrl=stepsize_controller)
        jax.debug.callback(cb, t, y, args["p"], t0, t1, dt0, terms.vf(t, y, args))
        return (t - T0) / (T1 - T0) - 0.63

    sol = dfx.diffeqsolve(dfx.ODETerm(rec.vf), dfx.Dopri5(), T0, T1, dt0, jnp.asarray(rng.normal(size=D)), a, saveat=dfx.SaveAt(ts=tsv), stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-5),
                          event=dfx.Event(cond, optx.Newton(1e-8, 1e-8)), max_steps=77)
    jax.effects_barrier()
    mon.case((name, len(seen)), calls=len(seen))
    mon.ok(kw["max_steps"] == 77 and isinstance(kw["solver"], dfx.Dopri5) and kw["ctrl"].rtol == 1e-4, "condition was given another solver, controller or max_steps", seen=str(kw))
    sol2 = dfx.diffeqsolve(dfx.ODETerm(rec.vf), dfx.Dopri5(), T0, T1, dt0, jnp.asarray(seen[0][1]), a, saveat=dfx.SaveAt(dense=True), stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-5), max_steps=77)
    lo, hi = min(T0, T1), max(T0, T1)
    for t, y, p_, t0, t1, dt, v in seen:
        mon.event("cond_calls_seen")
        mon.ok(lo - 1e-9 <= t <= hi + 1e-9, "condition evaluated outside the user's interval", t=t)
        mon.close([t0, t1, dt], [T0, T1, dt0], "condition was given other times than the user's", rtol=1e-12)
        mon.close(p_, a["p"][0], "condition was given other arguments")
        mon.close(v, np.asarray(rec.vf(t, jnp.asarray(y), a)), "condition was given terms that are not the user's", rtol=1e-9, atol=1e-9)
        mon.close(y, np.asarray(sol2.evaluate(np.clip(t, lo, hi))), "condition was given a state that is not the solution at its time", rtol=1e-7, atol=1e-7)


def run_steady(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from dv import rec

    rng = _rng(mon, name)
    B, D, N = 6, 3, 256
    k = rng.uniform(0.5, 3, size=(B, D))
    k[0] *= 0.01  # does not get there
    c = rng.normal(size=(B, D))
    i = p["i"]
    tols = [dict(), dict(rtol=1e-2, atol=1e-3)][i % 2]
    solver = [dfx.Tsit5(), dfx.Kvaerno3()][i % 2]
    tf = 12.0 if i % 2 == 0 else -12.0
    d = np.sign(tf)
    norm = [None, lambda y: jnp.max(jnp.abs(y))][i % 2]
    ctrl = dfx.PIDController(rtol=1e-3, atol=1e-4)
    cond = dfx.steady_state_event(norm=norm, **tols)
    f = lambda t, y, a: d * a[0] * (a[1] - y)

    def go(y0, a, ev):
        return dfx.diffeqsolve(dfx.ODETerm(f), solver, 0.0, tf, 0.05 * d, y0, a, stepsize_controller=rec.record(ctrl, N), saveat=dfx.SaveAt(t1=True, controller_state=True), max_steps=N,
                               throw=False, event=dfx.Event(cond) if ev else None)

    y0 = rng.normal(size=(B, D)) * 2
    y0[1] = c[1]  # steady at the start
    e, r = eqx.filter_jit(lambda y, a: (jax.vmap(lambda y, a: go(y, a, True))(y, a), jax.vmap(lambda y, a: go(y, a, False))(y, a)))(jnp.asarray(y0), (jnp.asarray(k), jnp.asarray(c)))
    occ, suc = np.asarray(e.result == dfx.RESULTS.event_occurred), np.asarray(e.result == dfx.RESULTS.successful)
    rt, at = tols.get("rtol", 1e-3), tols.get("atol", 1e-4)
    nf = (lambda y: np.sqrt(np.mean(y ** 2))) if norm is None else (lambda y: np.max(np.abs(y)))
    for b in range(B):
        lg = rec.unlog(rec.unbatch(r.controller_state, b))
        kk = np.where(lg["keep"])[0]
        ys = np.concatenate([y0[b][None], lg["y1"][kk]])
        ts = np.concatenate([[0.0], d * lg["t1"][kk]])
        g = np.array([nf(k[b] * (c[b] - y)) - at - rt * nf(y) for y in ys])
        if np.min(np.abs(g)) < 1e-9:
            continue
        hit = np.where(g < 0)[0]
        mon.case((name, b, len(hit) and int(hit[0])), element=b, first=int(hit[0]) if len(hit) else None)
        if len(hit):
            mon.event("steady_states")
            mon.ok(bool(occ[b]), "steady state not reported")
            mon.close(float(e.ts[b, 0]), ts[hit[0]], "time of the steady state", rtol=1e-9, atol=1e-12)
            mon.close(np.asarray(e.ys)[b, 0], ys[hit[0]], "steady state", rtol=1e-7, atol=1e-9)
        else:
            mon.event("not_steady")
            mon.ok(bool(suc[b]), "not steady, but stopped")
            mon.close(float(e.ts[b, 0]), tf, "final time")
    # the older spelling of the same thing
    old = dfx.SteadyStateEvent(**tols, **({} if norm is None else dict(norm=norm)))
    o = eqx.filter_jit(jax.vmap(lambda y, a: dfx.diffeqsolve(
        dfx.ODETerm(f), solver, 0.0, tf, 0.05 * d, y, a, stepsize_controller=ctrl, max_steps=N, throw=False, discrete_terminating_event=old)))(
            jnp.asarray(y0), (jnp.asarray(k), jnp.asarray(c)))
    mon.equal(np.asarray(o.result == dfx.RESULTS.event_occurred), occ, "SteadyStateEvent stops exactly the solves that steady_state_event does")
    mon.close(np.asarray(o.ts), np.asarray(e.ts), "SteadyStateEvent: time", rtol=1e-9, atol=1e-12)
    mon.close(np.asarray(o.ys), np.asarray(e.ys), "SteadyStateEvent: state", rtol=1e-7, atol=1e-9)


def run_start(name, p, mon):
    """A boolean condition that is true at the start stops the solve there; a real one that starts non-zero does not."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    y0 = jnp.array([0.5, 2.0, -1.0])

    for tf in (1.0, -1.0):
        for rf in (None, optx.Newton(1e-6, 1e-6)):
            def go(y):
                return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -0.1 * y), dfx.Tsit5(), 0.0, tf, tf / 7, y, throw=False,
                                       saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(t1=True), dfx.SubSaveAt(t0=True, steps=1), dfx.SubSaveAt(ts=jnp.array([0.3, 0.6]) * tf)]),
                                       event=dfx.Event((lambda t, y, a, **k: y > 1.0, lambda t, y, a, **k: y - 3.0), rf), max_steps=20)
            s = eqx.filter_jit(jax.vmap(go))(y0)
            occ, suc = np.asarray(s.result == dfx.RESULTS.event_occurred), np.asarray(s.result == dfx.RESULTS.successful)
            for i in range(3):
                mon.case((tf, rf is None, i), element=i, tf=tf, root=rf is not None)
                if i == 1:
                    mon.event("start_events")
                    mon.ok(bool(occ[i]), "event at the start not reported")
                    mon.close([float(s.ts[0][i, 0]), float(s.ys[0][i, 0])], [0.0, 2.0], "output of an event at the start")
                    mon.ok(int(s.stats["num_steps"][i]) == 0, "steps made after an event at the start")
                    mon.ok(int(jnp.isfinite(s.ts[1][i]).sum()) == 1 and int(jnp.isfinite(s.ts[2][i]).sum()) == 0, "output after an event at the start")
                else:
                    mon.ok(bool(suc[i]), "element without event did not succeed")
                    mon.close(float(s.ts[0][i, 0]), tf, "final time")
                    mon.close(float(s.ys[0][i, 0]), float(y0[i]) * np.exp(-0.1 * tf), "final value", rtol=1e-6)
                    mon.ok(int(jnp.isfinite(s.ts[2][i]).sum()) == 2, "outputs missing")
