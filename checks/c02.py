"""C02: SaveAt returns exactly the requested outputs at the requested times."""
import numpy as np

PROPERTY = "C02"
RULE = ("one evaluation = one sub-request of one element of a batched solve, compared entry by entry with the list "
        "expected from the recorded step history and the dense output; distinct = (solver, controller, direction, "
        "sub-request, steps taken); non-trivial = at least one entry requested")
ASSUMPTIONS = ["values between steps are judged against the solve's own dense output (judged itself in C03)"]
MIN_EVENTS = {"entries": 10000, "subs": 600, "failed_solves": 10, "at_step_end": 100}

IVS = [(0.0, 2.0), (1.5, -0.7), (-4.0, -2.0), (100.0, 98.5), (0.0, -0.3), (7.0, 7.9)]


def tasks(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 5
    sol = ["Tsit5", "Euler", "Dopri5", "Kvaerno3", "Heun", "KenCarp3", "Dopri8", "Bosh3", "SemiImplicitEuler", "ReversibleHeun",
           "Half(Heun)", "Kvaerno5", "LeapfrogMidpoint", "ImplicitEuler"]
    for r in range(rep):
        for i, s in enumerate(sol):
            cs = ["const", "stepto"] if s in ("Euler", "SemiImplicitEuler", "LeapfrogMidpoint") else ["pid", ["const", "stepto", "pid"][(i + r) % 3]]
            for j, c in enumerate(cs):
                out.append((f"{s}-{c}-{j}-{r}", dict(solver=s, ctrl=c, iv=(i + 3 * j + r) % len(IVS), short=(i + j + r) % 4 == 3, f32=(i + r) % 5 == 4 and s != "SemiImplicitEuler" and not s.startswith("K"))))
        for i in range(6):
            out.append((f"tree-{i}-{r}", dict(solver=["Tsit5", "Heun", "Euler"][i % 3], ctrl=["pid", "const", "const"][i % 3], iv=(i + r) % len(IVS), tree=True, short=False, f32=False)))
        for i, s in enumerate(["Tsit5", "Kvaerno3", "Euler", "SemiImplicitEuler"]):
            out.append((f"equal-{s}-{r}", dict(solver=s, equal=True)))
        out.append((f"structure-{r}", dict(structure=True)))
    return out


def _rng(mon, *k):
    import zlib
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def fn_a(t, y, args):
    return y


def fn_b(t, y, args):
    import jax.numpy as jnp
    from dv import rec
    v = rec.flat(y)
    return {"t": jnp.asarray(t) * 2 + 1, "s": jnp.sum(v) * args["w"], "m": jnp.stack([v, v * t])}


def fn_c(t, y, args):
    import jax.numpy as jnp
    from dv import rec
    return jnp.sin(jnp.asarray(t)) + rec.flat(y)[0] * args["b"][1]


FNS = [None, fn_a, fn_b, fn_c]


def random_subs(rng, k):
    subs = [dict(t0=True, t1=True, ts=True, steps=0, fn=0), dict(t0=False, t1=True, ts=False, steps=3, fn=2), dict(t0=True, t1=True, ts=True, steps=1, fn=0),
            dict(t0=False, t1=False, ts=True, steps=0, fn=3)]
    while len(subs) < k:
        s = dict(t0=bool(rng.integers(2)), t1=bool(rng.integers(2)), ts=bool(rng.integers(2)), steps=int(rng.choice([0, 0, 1, 2, 3, 4, 5])), fn=int(rng.integers(4)))
        if s["t0"] or s["t1"] or s["ts"] or s["steps"]:
            subs.append(s)
    return subs


def run(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from dv import rec

    rng = _rng(mon, name)
    if p.get("structure"):
        return run_structure(mon, rng)
    solver, kind, implicit, history = rec.ode_solvers(fixed_tols=True)[p["solver"]]
    D, B, NT = 3, 3, 9
    terms = rec.norm_terms(kind, 1)
    if p.get("equal"):
        T0 = T1 = 1.25
        d = 1
    else:
        T0, T1 = IVS[p["iv"]]
        d = 1 if T1 > T0 else -1
    ft = np.float32 if p.get("f32") else np.float64
    L = abs(T1 - T0)
    args = rec.stack([rec.vf_args(rng, D, s) for s in [1.0, 2.0, 0.6]])
    y0 = rec.stack([rec.y0_for(kind, rng, D) for _ in range(B)])
    if p.get("tree"):
        def vft(t, y, a):
            v = rec.vf(t, jnp.concatenate([y["a"].ravel(), y["b"][0][None]]), a)
            return {"a": v[:2].reshape(2, 1), "b": (v[2],)}
        terms = dfx.ODETerm(vft)
        y0 = {"a": rng.normal(size=(B, 2, 1)), "b": (rng.normal(size=B),)}
    cast = lambda tr: jtu.tree_map(lambda x: jnp.asarray(x, ft), tr)
    args, y0 = cast(args), cast(y0)
    N = 64 if not p.get("short") else 7
    subs = random_subs(rng, 8)
    ctrl_kind = p.get("ctrl", "const")
    M = 13
    if ctrl_kind == "stepto":
        st = np.sort(rng.uniform(0.03, 0.97, size=(B, M)), axis=1)
        st = T0 + np.concatenate([np.zeros((B, 1)), st, np.ones((B, 1))], 1) * (T1 - T0)
        st[:, 0], st[:, -1] = T0, T1
        st = jnp.asarray(st, ft)
    else:
        st = jnp.zeros((B, 1), ft)
    dts = jnp.asarray(np.array([0.11, 0.0625, 0.3]) * ((T1 - T0) if L else 1.0), ft)
    low = p["solver"] in ("Heun", "ImplicitEuler", "ReversibleHeun", "Half(Heun)", "Bosh3")
    pid = dfx.PIDController(rtol=1e-2 if low else 1e-4, atol=1e-3 if low else 1e-5)

    def mksub(s, ts):
        return dfx.SubSaveAt(t0=s["t0"], t1=s["t1"], ts=ts if s["ts"] else None, steps=s["steps"], **({} if FNS[s["fn"]] is None else dict(fn=FNS[s["fn"]])))

    @eqx.filter_jit
    def solve(y0, args, ts, dts, st):
        def f(y0, args, ts, dt, st):
            saveat = dfx.SaveAt(subs={"x": [mksub(s, ts) for s in subs[:4]], "y": tuple(mksub(s, ts[::2]) for s in subs[4:])},
                                dense=True, controller_state=ctrl_kind != "stepto")
            if ctrl_kind == "stepto":
                c, dt0 = dfx.StepTo(st), None
            elif ctrl_kind == "const":
                c, dt0 = rec.record(dfx.ConstantStepSize(), N), dt
            else:
                c, dt0 = rec.record(pid, N), dt
            s = dfx.diffeqsolve(terms, solver, ft(T0), ft(T1), dt0, y0, args, saveat=saveat, stepsize_controller=c, max_steps=N, throw=False)
            dense = jax.vmap(lambda t: rec.flat(s.evaluate(t)))(ts)
            return s.ts, s.ys, s.stats, dfx.is_successful(s.result), dense, s.controller_state
        return jax.vmap(f)(y0, args, ts, dts, st)

    def times(extra=None):
        u = np.sort(rng.uniform(0, 1, size=(B, NT)), axis=1)
        u[:, 0] = 0.0
        u[0, 1] = u[0, 0]  # duplicates
        u[1, 4] = u[1, 3]
        u[2, -2] = u[2, -1] = 1.0
        u[1, 6] = u[1, 5] + 1e-9
        ts = T0 + u * (T1 - T0)
        ts[2, -2:] = T1
        ts = np.clip(ts, min(T0, T1), max(T0, T1))
        if extra is not None:
            for b in range(B):
                e = extra[b]
                if len(e):
                    pick = rng.choice(e, size=NT - 4)
                    ts[b, 4:] = pick
        ts = np.sort(np.asarray(ts, ft), axis=1)
        return ts if d == 1 else ts[:, ::-1].copy()

    if p.get("equal"):
        tsb = np.full((B, NT), T0, ft)
        rounds = [tsb]
    else:
        rounds = [times(), None]
    ends = [[] for _ in range(B)]
    eps = np.finfo(ft).eps
    for rd, tsb in enumerate(rounds):
        if tsb is None:
            tsb = times(ends)
        ts_o, ys_o, stats, succ, dense, cs = solve(y0, args, jnp.asarray(tsb), dts, st)
        succ = np.asarray(succ)
        for b in range(B):
            y0b, argb = rec.unbatch(y0, b), rec.unbatch(args, b)
            y0f = np.asarray(rec.flat(y0b))
            nacc = int(np.asarray(stats["num_accepted_steps"])[b])
            if p.get("equal"):
                at, ay = np.zeros(0, ft), np.zeros((0, len(y0f)), ft)
                mon.ok(succ[b], "empty interval succeeds")
                mon.equal(int(np.asarray(stats["num_steps"])[b]), 0, "empty interval takes no steps")
            elif ctrl_kind == "stepto":
                at = np.asarray(st)[b][1: nacc + 1]
                ay = None
            else:
                log = rec.unlog(rec.unbatch(cs, b))
                at, ay = log["t1"][log["keep"]] * d, log["y1"][log["keep"]]
            if rd == 0 and len(at):
                ends[b] = at
            if not succ[b]:
                mon.event("failed_solves")
            reach = at[-1] if len(at) else ft(T0)
            if ay is None:
                # step values: the second sub of "x" [index 2] saves every step
                k0 = 1
                full = jtu.tree_leaves(ys_o["x"][2])
                allts = np.asarray(ts_o["x"][2])[b]
                # positions of step entries are checked below through the ordering oracle; take values from dense at the same times instead
                ay = None
            dn = np.asarray(dense)[b]
            scale = max(np.nanmax(np.abs(dn[np.isfinite(dn)]), initial=0.0), np.abs(y0f).max(), 1e-3)
            vals = {}
            for j, s in enumerate(subs):
                tss = tsb[b] if j < 4 else tsb[b][::2]
                dns = dn if j < 4 else dn[::2]
                exp = []
                if s["t0"]:
                    exp.append((ft(T0), y0f, "t0"))
                inner = []
                if p.get("equal"):
                    if s["ts"]:
                        inner += [(t, y0f, "ts") for t in tss]
                else:
                    q = 0
                    for k in range(len(at)):
                        if s["ts"]:
                            while q < len(tss) and tss[q] * d <= at[k] * d:
                                inner.append((tss[q], dns[q], "ts"))
                                if tss[q] == at[k]:
                                    mon.event("at_step_end")
                                q += 1
                        if s["steps"] and (k + 1) % s["steps"] == 0:
                            inner.append((at[k], None if ay is None else ay[k], "step"))
                exp += inner
                if s["t1"] and not (s["steps"] and len(at) and len(at) % s["steps"] == 0):
                    exp.append((reach, (y0f if not len(at) else (None if ay is None else ay[-1])), "t1"))
                got_t = np.asarray((ts_o["x"][j] if j < 4 else ts_o["y"][j - 4]))[b]
                got_y = rec.unbatch(ys_o["x"][j] if j < 4 else ys_o["y"][j - 4], b)
                mon.case((p["solver"], ctrl_kind, d, str(s), len(at), bool(succ[b]), rd), dict(sub=s, t0=T0, t1=T1, steps=len(at)), nontrivial=len(exp) > 0)
                mon.event("subs")
                mon.event("entries", len(exp))
                n = len(exp)
                if not mon.ok(len(got_t) >= n, "room for every requested output", have=len(got_t), need=n):
                    continue
                if not mon.equal(got_t[:n], np.array([e[0] for e in exp], ft), "saved times are the requested ones, in order, each once", sub=s):
                    continue
                mon.ok(np.all(got_t[n:] == np.inf), "unused times are +inf and come last", tail=got_t[n:])
                for leaf in jtu.tree_leaves(got_y):
                    mon.equal(leaf.shape[0], len(got_t), "as many values as times")
                    mon.ok(np.all(leaf[n:] == np.inf), "unused values are +inf")
                fn = FNS[s["fn"]] or fn_a
                for m, (t, y, tag) in enumerate(exp):
                    if y is None:
                        continue
                    got = jtu.tree_map(lambda x: x[m], got_y)
                    w = _apply(fn, t, y, y0b, argb)
                    tol = (3e-5 if ft is np.float32 else 1e-11) if tag == "ts" else 64 * eps
                    for a, c in zip(jtu.tree_leaves(got), jtu.tree_leaves(w)):
                        mon.close(a, np.asarray(c), f"saved value at a '{tag}' time is fn of the solution there",
                                  atol=tol * scale * (1 + abs(float(t))) * (1 + np.abs(argb["w"]) + np.abs(argb["b"]).max()), entry=m, time=t, sub=s)
                        mon.ok(np.asarray(a).shape == np.shape(c), "saved value keeps fn's shape")


def _apply(fn, t, yflat, ystruct, args):
    import jax.numpy as jnp
    import jax.tree_util as jtu
    leaves, tdef = jtu.tree_flatten(ystruct)
    out, k = [], 0
    for l in leaves:
        n = int(np.size(l))
        out.append(np.asarray(yflat[k: k + n]).reshape(np.shape(l)))
        k += n
    y = jtu.tree_unflatten(tdef, out)
    return fn(t, y, args)


def run_structure(mon, rng):
    """Optional outputs appear exactly when asked for; structure of ts/ys follows subs."""
    import diffrax as dfx
    import jax.numpy as jnp
    import jax.tree_util as jtu
    term = dfx.ODETerm(lambda t, y, a: -y)
    for m in range(16):
        ss, cc, mj, dn = bool(m & 1), bool(m & 2), bool(m & 4), bool(m & 8)
        saveat = dfx.SaveAt(t1=True, solver_state=ss, controller_state=cc, made_jump=mj, dense=dn)
        ctrl = dfx.ClipStepSizeController(dfx.PIDController(rtol=1e-3, atol=1e-5), jump_ts=[0.5]) if m % 3 == 0 else dfx.PIDController(rtol=1e-3, atol=1e-5)
        s = dfx.diffeqsolve(term, dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.array([1.0, 2.0]), saveat=saveat, stepsize_controller=ctrl, max_steps=64)
        mon.case(("structure", m), dict(solver_state=ss, controller_state=cc, made_jump=mj, dense=dn))
        mon.ok((s.solver_state is not None) == ss, "solver_state exactly when asked for")
        mon.ok((s.controller_state is not None) == cc, "controller_state exactly when asked for")
        mon.ok((s.made_jump is not None) == mj, "made_jump exactly when asked for")
        mon.ok((s.interpolation is not None) == dn, "dense output exactly when asked for")
        mon.equal([float(s.t0), float(s.t1)], [0.0, 1.0], "interval reported")
        mon.ok(s.ts.shape == (1,) and s.ys.shape == (1, 2), "one value for t1")
    s = dfx.diffeqsolve(term, dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.array([1.0, 2.0]), saveat=dfx.SaveAt(dense=True), max_steps=64)
    mon.ok(s.ts is None and s.ys is None, "nothing saved when only dense output is asked for")
    sub = lambda **k: dfx.SubSaveAt(**k)
    s = dfx.diffeqsolve(term, dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.array([1.0, 2.0]), saveat=dfx.SaveAt(subs={"p": (sub(t1=True),), "q": [sub(t0=True), sub(ts=[0.2, 0.3])]}), max_steps=64)
    mon.ok(jtu.tree_structure(s.ts) == jtu.tree_structure({"p": (0,), "q": [0, 0]}), "ts follows the structure of subs")
    mon.ok(jtu.tree_structure(s.ys) == jtu.tree_structure({"p": (0,), "q": [0, 0]}), "ys follows the structure of subs")
    mon.equal(s.ts["q"][1], [0.2, 0.3], "times of the sub-request")
