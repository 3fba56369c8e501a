"""C15: integrating backwards equals integrating the time-reversed problem forwards; time shifts change nothing.

One compiled solve takes the problem as seen on a clock s = d * t + tau (d = +-1): vector field d*f(d*(s-tau), y), controls, Brownian paths,
step/jump/save times and events on the same clock. The original solve (d=1, tau=0; either direction of integration) is put side by side with
the solve on the negated, shifted, and negated-and-shifted clock.
"""
import zlib
from typing import Any

import numpy as np

PROPERTY = "C15"
RULE = ("one evaluation = one real solve compared with the same solve on another clock; distinct = (configuration, direction of the original, "
        "clock, instance); non-trivial = at least three steps")
ASSUMPTIONS = ["accept/reject and event decisions are not within rounding of the threshold (the data are random)",
               "stochastic equations are read in the Stratonovich sense (an Ito solver retraces the path instead)"]
MIN_EVENTS = {"negated": 100, "shifted": 50, "steps_compared": 3000, "dense_queries": 1500, "events_fired": 10, "sde": 20, "cde": 12,
              "gradients": 20, "rejections": 150, "jump_solves": 8, "ts_outputs": 600}

CFG = {
    "tsit5-pid-auto": dict(s="Tsit5", c="pid", auto=True),
    "dopri5-clip": dict(s="Dopri5", c="pid", clip="sj"),
    "dopri8-const": dict(s="Dopri8", c="const"),
    "bosh3-pi-event": dict(s="Bosh3", c="pi", event="root"),
    "heun-stepto": dict(s="Heun", c="stepto"),
    "ralston-event-many": dict(s="Ralston", c="i", event="many"),
    "midpoint-clip-r": dict(s="Midpoint", c="pid", clip="sr"),
    "euler-const-event": dict(s="Euler", c="const", event="bool"),
    "kvaerno3-clip": dict(s="Kvaerno3", c="pid", clip="j"),
    "kvaerno5-auto": dict(s="Kvaerno5", c="pi", auto=True),
    "kvaerno4-const": dict(s="Kvaerno4", c="const"),
    "impeuler-pid": dict(s="ImplicitEuler", c="pid", event="dir"),
    "kencarp3-stepto": dict(s="KenCarp3", c="stepto"),
    "kencarp4-pid": dict(s="KenCarp4", c="pid"),
    "kencarp5-const": dict(s="KenCarp5", c="const"),
    "sil3-pid": dict(s="Sil3", c="pid"),
    "revheun-pid": dict(s="ReversibleHeun", c="i"),
    "leapfrog-const": dict(s="LeapfrogMidpoint", c="const"),
    "leapfrog-stepto": dict(s="LeapfrogMidpoint", c="stepto"),
    "sie-const": dict(s="SemiImplicitEuler", c="const", event="root"),
    "halftsit5-pid": dict(s="Half(Tsit5)", c="pid"),
    "halfeuler-clip": dict(s="Half(Euler)", c="i", clip="sj"),
    "cde-linear-ode": dict(s="Tsit5", c="pid", clip="j", cde="linear-ode"),
    "cde-linear": dict(s="Heun", c="const", cde="linear"),
    "cde-cubic-ode": dict(s="Dopri5", c="pid", cde="cubic-ode"),
    "cde-cubic": dict(s="Midpoint", c="pi", cde="cubic"),
    "sde-spark": dict(s="SPaRK", c="pid", sde="gen"),
    "sde-genshark": dict(s="GeneralShARK", c="const", sde="gen"),
    "sde-shark": dict(s="ShARK", c="const", sde="add"),
    "sde-sra1": dict(s="SRA1", c="pid", sde="add"),
    "sde-sea": dict(s="SEA", c="const", sde="add"),
    "sde-slowrk": dict(s="SlowRK", c="const", sde="com"),
    "sde-strmil": dict(s="StratonovichMilstein", c="const", sde="com"),
    "sde-eulerheun": dict(s="EulerHeun", c="const", sde="gen"),
    "sde-heun": dict(s="Heun", c="pi", sde="gen", clip="r"),
    "sde-revheun": dict(s="ReversibleHeun", c="const", sde="gen"),
    "sde-midpoint-ubp": dict(s="Midpoint", c="const", sde="ubp"),
    "sde-half": dict(s="Half(Heun)", c="const", sde="gen"),
}
GRAD = {
    "g-tsit5-rec": dict(s="Tsit5", c="const", adj="rec"),
    "g-kvaerno3-rec": dict(s="Kvaerno3", c="const", adj="rec"),
    "g-dopri5-back": dict(s="Dopri5", c="pid", adj="back"),
    "g-sde-back": dict(s="Heun", c="const", sde="gen", adj="back"),
    "g-bosh3-fwd": dict(s="Bosh3", c="pid", adj="fwd", clip="s"),
    "g-revheun-rec": dict(s="ReversibleHeun", c="const", adj="rec"),
    "g-event": dict(s="Tsit5", c="const", event="root", adj="rec"),
    "g-cde": dict(s="Heun", c="const", cde="cubic", adj="rec"),
}
QUICK_SKIP = {"kencarp3-stepto", "kencarp5-const", "sde-sea", "kvaerno4-const", "sde-shark"}
D, MAX, NT, NQ = 2, 160, 7, 12
NAMES = {"gen": 3, "add": 3, "com": 2, "ubp": 2}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 6
    T = []
    for i in range(m):
        for n, c in CFG.items():
            if m == 1 and n in QUICK_SKIP:
                continue
            T.append((f"{n}:{i}", dict(kind="solve", cfg=n, i=i, _cost=9 if any(k in n for k in ("kv", "ken", "sil", "sde")) else 4)))
        for n in GRAD:
            T.append((f"{n}:{i}", dict(kind="grad", cfg=n, i=i, _cost=7)))
    return T


def run(name, p, mon):
    return globals()["run_" + p["kind"]](name, p, mon)


# ------------------------------------------------------------------ the problem on a clock
_CLS = {}


def _paths():
    import diffrax as dfx
    import jax.numpy as jnp
    import jax.tree_util as jtu

    if _CLS:
        return _CLS

    class ClockBM(dfx.AbstractBrownianPath):
        """the Brownian path `inner` as seen on the clock s = d t + tau (harness code)"""
        inner: dfx.AbstractBrownianPath
        d: Any
        tau: Any

        @property
        def levy_area(self):
            return self.inner.levy_area

        @property
        def t0(self):
            return None

        @property
        def t1(self):
            return None

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            a, b = self.d * (t0 - self.tau), self.d * (t1 - self.tau)
            lo, hi = jnp.where(self.d > 0, a, b), jnp.where(self.d > 0, b, a)
            out = self.inner.evaluate(lo, hi, use_levy=use_levy)
            flip = lambda x: jtu.tree_map(lambda v: self.d * v, x)  # noqa: E731
            if not use_levy:
                return flip(out)
            kw = dict(dt=out.dt, W=flip(out.W))
            if hasattr(out, "H"):
                kw["H"] = out.H
            if hasattr(out, "K"):
                kw["K"] = flip(out.K)
            return type(out)(**kw)

    class ClockPath(dfx.AbstractPath):
        inner: dfx.AbstractPath
        d: Any
        tau: Any

        @property
        def t0(self):
            return jnp.asarray(-100.0)

        @property
        def t1(self):
            return jnp.asarray(100.0)

        def evaluate(self, t0, t1=None, left=True):
            if t1 is None:
                return self.inner.evaluate(self.d * (t0 - self.tau), left=left)
            return self.inner.evaluate(self.d * (t1 - self.tau)) - self.inner.evaluate(self.d * (t0 - self.tau))

        def derivative(self, t, left=True):
            return self.d * self.inner.derivative(self.d * (t - self.tau), left=left)

    _CLS.update(bm=ClockBM, path=ClockPath)
    return _CLS


def _terms(cfg, inp, d, tau):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import lineax as lx

    P = _paths()
    tm = lambda f, dd: (lambda s, y, a: jax.tree_util.tree_map(lambda x: dd * x, f(d * (s - tau), y, a)))  # noqa: E731
    rate = lambda f: tm(f, d)  # noqa: E731
    plain = lambda f: (lambda s, y, a: f(d * (s - tau), y, a))  # noqa: E731

    def forcing(a, t):
        return a["b"] * jnp.sin(a["w"] * t) + a["s"] * jnp.sum(jnp.where(t > a["jts"], 1.0, 0.0))

    lin = lambda t, y, a: a["A"] @ y  # noqa: E731
    rest = lambda t, y, a: a["c"] * jnp.tanh(y[::-1]) + forcing(a, t)  # noqa: E731
    full = lambda t, y, a: lin(t, y, a) + rest(t, y, a)  # noqa: E731
    if "sde" in cfg:
        k = cfg["sde"]
        if k == "ubp":
            bm = dfx.UnsafeBrownianPath((D,), inp["key"], levy_area=dfx.BrownianIncrement)
        else:
            bm = dfx.VirtualBrownianTree(-6.0, 6.0, 2.0 ** -9, (D,), inp["key"], levy_area=dfx.SpaceTimeTimeLevyArea)
        g = {
            "add": lambda t, y, a: lx.MatrixLinearOperator(0.3 * a["A"] * (1 + 0.3 * jnp.sin(a["w"] * t))),
            "com": lambda t, y, a: lx.DiagonalLinearOperator(0.3 * a["c"] * (1 + 0.3 * jnp.sin(a["w"] * t)) * (1 + 0.5 * jnp.tanh(y))),
            "gen": lambda t, y, a: lx.MatrixLinearOperator(0.2 * a["A"] * jnp.cos(a["w"] * t + y[::-1])[:, None] + 0.1),
        }["com" if k == "ubp" else k]
        return dfx.MultiTerm(dfx.ODETerm(rate(full)), dfx.ControlTerm(plain(g), P["bm"](bm, d, tau)))
    if "cde" in cfg:
        if cfg["cde"].startswith("linear"):
            path = dfx.LinearInterpolation(inp["ks"], inp["xs"])
        else:
            path = dfx.CubicInterpolation(inp["ks"], dfx.backward_hermite_coefficients(inp["ks"], inp["xs"]))
        term = dfx.ControlTerm(plain(lambda t, y, a: jnp.stack([a["c"] * jnp.tanh(y[::-1]) + 0.3 * jnp.sin(a["w"] * t), a["A"] @ y, jnp.cos(y)], -1)), P["path"](path, d, tau))
        if cfg["cde"].endswith("ode"):
            term = term.to_ode()
        return term
    s = cfg["s"]
    if s in ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3"):
        return dfx.MultiTerm(dfx.ODETerm(rate(rest)), dfx.ODETerm(rate(lin)))
    if s in ("SemiImplicitEuler", "Half(SIE)"):
        return (dfx.ODETerm(rate(lambda t, y, a: a["A"] @ y + forcing(a, t))), dfx.ODETerm(rate(lambda t, y, a: -jnp.sin(y) * a["c"] + forcing(a, t))))
    return dfx.ODETerm(rate(full))


def _solver(s):
    import diffrax as dfx
    from dv.rec import ode_solvers
    o = ode_solvers(fixed_tols=True)
    return o[s][0] if s in o else getattr(dfx, s)()


def _first(y):
    import jax
    return jax.tree_util.tree_leaves(y)[0]


def _solve(cfg, inp, d, tau, t0=None, t1=None, y0=None, args=None, adjoint=None, ts=None, save="all"):
    """the solve of problem `inp`, all of it on the clock s = d t + tau"""
    import diffrax as dfx
    import jax.numpy as jnp
    import optimistix as optx

    clk = lambda t: d * t + tau  # noqa: E731
    t0 = inp["t0"] if t0 is None else t0
    t1 = inp["t1"] if t1 is None else t1
    y0 = inp["y0"] if y0 is None else y0
    args = inp["args"] if args is None else args
    c = cfg["c"]
    dt0 = d * inp["dt0"]
    if c == "const":
        ctrl = dfx.ConstantStepSize()
    elif c == "stepto":
        ctrl, dt0 = dfx.StepTo(ts=clk(inp["steps"])), None
    else:
        kw = dict(pid=dict(pcoeff=0.2, icoeff=0.5, dcoeff=0.05), pi=dict(pcoeff=0.3, icoeff=0.4), i=dict())[c]
        ctrl = dfx.PIDController(rtol=inp["rtol"], atol=inp["rtol"] * 0.1, **kw)
    if cfg.get("auto"):
        dt0 = None
    clip = cfg.get("clip", "")
    if clip:
        ctrl = dfx.ClipStepSizeController(ctrl, step_ts=clk(inp["sts"]) if "s" in clip else None, jump_ts=clk(inp["jts"]) if "j" in clip else None,
                                          store_rejected_steps=16 if "r" in clip else None)
    e = cfg.get("event")
    user = lambda f: (lambda t, y, args, **kw: f(d * (t - tau), _first(y)))  # noqa: E731
    lev = inp["lev"]
    event = None
    if e == "root":
        event = dfx.Event(user(lambda t, y: y[0] - lev * (1 + 0.2 * jnp.sin(3 * t))), optx.Newton(1e-9, 1e-9))
    elif e == "bool":
        event = dfx.Event(user(lambda t, y: y[1] * jnp.cos(t) > lev))
    elif e == "dir":
        event = dfx.Event(user(lambda t, y: y[0] - lev), optx.Newton(1e-9, 1e-9), direction=True)
    elif e == "many":
        event = dfx.Event([user(lambda t, y: y[0] - lev), user(lambda t, y: (t - inp["t0"]) ** 2 > inp["tlim"] ** 2)], optx.Newton(1e-9, 1e-9))
    if save == "all":
        fn = lambda t, y, a: (d * (t - tau), _first(y).sum() * (t - tau) * d)  # noqa: E731
        saveat = dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=clk(inp["ts"]), fn=fn), dfx.SubSaveAt(t0=True, t1=True, steps=3)], dense=True)
    else:
        saveat = dfx.SaveAt(ts=clk(inp["ts"] if ts is None else ts)) if save == "ts" else dfx.SaveAt(t1=True)
    if cfg.get("sde") == "ubp":
        adjoint = dfx.ForwardMode()
    kw = {} if adjoint is None else dict(adjoint=adjoint)
    return dfx.diffeqsolve(_terms(cfg, inp, d, tau), _solver(cfg["s"]), clk(t0), clk(t1), dt0, y0, args, saveat=saveat, stepsize_controller=ctrl,
                           max_steps=MAX, throw=False, event=event, **kw)


def _data(rng, cfg, k):
    sign = -1.0 if k % 2 == 0 else 1.0
    t0 = rng.uniform(-1.0, 1.0) if k % 3 else rng.uniform(0.5, 1.0) * sign * -0.4     # intervals that straddle zero and that do not
    L = rng.uniform(1.0, 1.8)
    t1 = t0 + sign * L
    jts = t0 + sign * L * np.sort(rng.uniform(0.08, 0.92, 3))
    sts = t0 + sign * L * np.sort(rng.uniform(0.05, 0.95, 3))
    rng.shuffle(sts)
    steps = t0 + sign * L * np.concatenate([[0], np.sort(rng.uniform(0.02, 0.98, 14)), [1]])
    steps[-1] = t1
    ts = t0 + sign * L * np.sort(rng.random(NT))
    if k % 2 == 0:
        ts[0], ts[-1] = t0, t1
    s, sde = cfg["s"], "sde" in cfg
    args = dict(A=rng.normal(size=(D, D)) * 1.2 - 0.5 * sign * np.eye(D), b=rng.normal(size=D) * 3, w=np.float64(rng.uniform(3, 8)), c=rng.normal(size=D),
                s=rng.normal(size=D) * (2.0 if "j" in cfg.get("clip", "") else 0.0), jts=jts)
    y0 = rng.normal(size=D)
    if s in ("SemiImplicitEuler", "Half(SIE)"):
        y0 = (y0, rng.normal(size=D))
    rtol = {"Heun": 3e-3, "Ralston": 3e-3, "Midpoint": 1e-2, "Bosh3": 1e-4, "ImplicitEuler": 3e-2, "ReversibleHeun": 1e-1, "Half(Heun)": 1e-3, "Half(Euler)": 3e-2, "Kvaerno3": 1e-3, "Sil3": 3e-3}.get(s, 1e-5)
    if sde:
        rtol = 5e-2
    if "cde" in cfg:
        rtol = max(rtol, 1e-4)
    ks = min(t0, t1) - 0.1 + (L + 0.2) * (np.arange(8) + np.concatenate([[0], rng.uniform(-0.3, 0.3, 6), [0]])) / 7
    if "cde" in cfg:
        jts = ks[1:-1]
    lev = float(np.ravel(y0[0] if isinstance(y0, tuple) else y0)[1 if cfg.get("event") == "bool" else 0] * 1.0 + rng.choice([-1, 1]) * rng.uniform(0.1, 0.5))
    if cfg.get("event") == "dir":
        lev = float(y0[0]) + 0.2
    return dict(t0=t0, t1=t1, dt0=sign * L * (rng.uniform(0.04, 0.07) if cfg["c"] == "const" else rng.uniform(0.1, 0.3)), y0=y0, args=args, jts=jts, sts=sts, steps=steps, ts=ts,
                rtol=np.float64(rtol), lev=np.float64(lev), tlim=np.float64(rng.uniform(0.3, 0.8) * L), ks=ks, xs=0.5 * rng.normal(size=(8, 3)),
                key=rng.integers(0, 2 ** 32, 2).astype(np.uint32)), sign


TAUS = [0.0, 0.0, 1.625, -0.71875]


def run_solve(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    cfg = CFG[p["cfg"]]
    sde = "sde" in cfg
    adaptive = cfg["c"] in ("pid", "pi", "i")

    @eqx.filter_jit
    def go(inp, d, tau, q):
        sol = _solve(cfg, inp, d, tau)
        ev = lambda f: jax.vmap(f)  # noqa: E731
        return (sol.ts, sol.ys, sol.stats, sol.result, sol.event_mask, ev(sol.evaluate)(d * q + tau), ev(sol.derivative)(d * q + tau),
                ev(lambda a: sol.evaluate(d * a[0] + tau, d * a[1] + tau))(jnp.stack([q, q[::-1]], -1)), (sol.t0, sol.t1, sol.interpolation.t0, sol.interpolation.t1))

    rng = _rng(mon, name)
    rows = lambda y: np.concatenate([np.asarray(x).reshape(len(np.asarray(x)), -1) for x in jtu.tree_leaves(y)], axis=-1)  # noqa: E731
    for k in range(6 if mon.tier == "quick" else 10):
        inp, sign = _data(rng, cfg, k)
        inp = jtu.tree_map(jnp.asarray, inp)
        t0, t1 = float(inp["t0"]), float(inp["t1"])
        q = jnp.asarray(t0 + (t1 - t0) * rng.random(NQ))
        clocks = [(-1.0, 0.0)]
        if k % 2 and cfg.get("sde") != "ubp" and not (sde and adaptive):
            clocks.append((-1.0 if k == 3 else 1.0, TAUS[2 + (k // 2) % 2]))
        ref = go(inp, jnp.asarray(1.0), jnp.asarray(0.0), q)
        nacc = int(ref[2]["num_accepted_steps"])
        mon.event("rejections", int(ref[2]["num_rejected_steps"]))
        good = ref[3] == dfx.RESULTS.successful
        fired = ref[3] == dfx.RESULTS.event_occurred
        mon.ok(good or fired or ref[3] == dfx.RESULTS.max_steps_reached, "the original solve succeeds", result=str(ref[3]), sign=sign, k=k)
        if not (good or fired):
            continue
        mon.event("events_fired", int(bool(fired)))
        mon.event("jump_solves", int("j" in cfg.get("clip", "")))
        for d, tau in clocks:
            mon.case((name, k, sign, d, tau), nontrivial=nacc >= 3, sign=sign, d=d, tau=tau, steps=nacc)
            out = go(inp, jnp.asarray(d), jnp.asarray(tau), q)
            if tau == 0:
                tl = 1e-7 if cfg.get("event") and adaptive else 1e-8
            else:
                tl = 1e-4 if sde else 1e-7
            kind = ("negated" if d < 0 else "") + ("shifted" if tau else "")
            # a shift rounds every time; through the error history of a step size controller that can move the steps: only accuracy is judged then
            loose = bool(tau) and adaptive
            mon.event("negated", d < 0)
            mon.event("shifted", tau != 0)
            mon.event("sde", sde)
            mon.event("cde", "cde" in cfg)
            mon.ok(str(out[3]) == str(ref[3]), f"{kind}: result", got=str(out[3]), want=str(ref[3]))
            if loose and fired:
                continue
            same = True
            for key in ref[2]:
                if loose:
                    break
                if ref[2][key] is not None and np.ndim(ref[2][key]) == 0:
                    same &= mon.equal(out[2][key], ref[2][key], f"{kind}: stats {key}")
            for a, b in zip(jtu.tree_leaves(out[4]), jtu.tree_leaves(ref[4])):
                mon.equal(a, b, f"{kind}: event mask")
            if not same:
                continue
            back = lambda s: np.where(np.isfinite(s), d * (np.asarray(s) - tau), np.inf)  # noqa: E731
            scale = 1 + np.abs(np.nan_to_num(np.concatenate([np.ravel(x) for x in jtu.tree_leaves(ref[1][0])]), posinf=0)).max()
            if loose:
                tl = 0.0
                slack = 300 * float(inp["rtol"]) * scale
            else:
                slack = 0.0
            for j, what in enumerate(("steps", "ts with a function", "every third step")):
                if loose and j != 1:
                    continue
                mon.close(back(out[0][j]), np.asarray(ref[0][j]), f"{kind}: times of SaveAt({what})", atol=max(tl, 1e-7), rtol=tl)
                a, b = rows(out[1][j]), rows(ref[1][j])
                mon.close(a, b, f"{kind}: values of SaveAt({what})", rtol=tl, atol=slack + tl * scale * (3 if j == 1 else 1))
            mon.event("steps_compared", nacc)
            mon.event("ts_outputs", int(np.isfinite(np.asarray(ref[0][1])).sum()))
            for g, w, what in ((out[8][0], ref[8][0], "t0"), (out[8][1], ref[8][1], "t1"), (out[8][2], ref[8][2], "interpolation.t0"), (out[8][3], ref[8][3], "interpolation.t1")):
                mon.close(back(np.asarray(g)), np.asarray(w), f"{kind}: Solution.{what}", atol=max(tl, 1e-7))
            endt = float(ref[8][1])
            inside = (np.asarray(q) - endt) * sign <= 0
            if fired and cfg.get("event") in ("root", "dir", "many"):
                last = np.asarray(ref[0][0])[np.isfinite(np.asarray(ref[0][0]))]
                endt = float(last[-1])
                inside = (np.asarray(q) - endt) * sign <= 0
            both = inside & inside[::-1]
            if inside.any():
                mon.event("dense_queries", int(inside.sum()))
                mon.close(rows(out[5])[inside], rows(ref[5])[inside], f"{kind}: dense output", rtol=tl, atol=slack + tl * scale * 10)
                dw = rows(ref[6])[inside]
                if loose:
                    continue
                mon.close(d * rows(out[6])[inside], dw, f"{kind}: derivative of dense output", rtol=max(tl, 1e-7) * 10, atol=max(tl, 1e-7) * 30 * (1 + np.abs(dw).max()))
                mon.close(rows(out[7])[both], rows(ref[7])[both], f"{kind}: dense increments", rtol=tl, atol=tl * scale * 10)


def run_grad(name, p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    cfg = GRAD[p["cfg"]]
    adj = {"rec": dfx.RecursiveCheckpointAdjoint, "fwd": dfx.ForwardMode}.get(cfg["adj"])
    adj = dfx.BacksolveAdjoint() if cfg["adj"] == "back" else adj()
    save = "t1" if cfg.get("event") else "ts"
    wts = jnp.cos(jnp.arange(1.0, NT + 1))[:, None] * jnp.array([1.0, -0.6])

    def loss(x, inp, d, tau):
        args = dict(inp["args"], **x["args"])
        sol = _solve(cfg, inp, d, tau, t0=x.get("t0"), t1=x.get("t1"), y0=x["y0"], args=args, adjoint=adj, ts=inp["ts"], save=save)
        w = wts if save == "ts" else wts[:1]
        return jnp.sum(jnp.where(jnp.isfinite(sol.ys), sol.ys, 0) * w)

    @eqx.filter_jit
    def go(x, inp, d, tau):
        if cfg["adj"] == "fwd":
            return (loss(x, inp, d, tau), jax.jacfwd(loss)(x, inp, d, tau))
        return jax.value_and_grad(loss)(x, inp, d, tau)

    rng = _rng(mon, name)
    for k in range(4):
        inp, sign = _data(rng, cfg, k)
        L = abs(inp["t1"] - inp["t0"])
        inp["ts"] = inp["t0"] + sign * L * np.linspace(0.13, 0.91, NT)
        inp = jtu.tree_map(jnp.asarray, inp)
        x = dict(t0=inp["t0"], t1=inp["t1"], y0=inp["y0"], args={n: inp["args"][n] for n in ("A", "b", "c")})
        if cfg["adj"] == "back":
            del x["t0"], x["t1"]   # not differentiable with this adjoint
        num = float if cfg["adj"] == "back" else jnp.asarray   # this adjoint's vector fields cannot close over traced values
        ref = go(x, inp, num(1.0), num(0.0))
        tl = 1e-6 if cfg["adj"] != "back" else 1e-5
        clocks = [(-1.0, 0.0)] + ([(1.0, 1.625)] if k % 2 and "sde" not in cfg else [])
        for d, tau in clocks:
            mon.case((name, k, sign, d, tau, "grad"), nontrivial=True, sign=sign, d=d, tau=tau)
            out = go(x, inp, num(d), num(tau))
            kind = ("negated" if d < 0 else "") + ("shifted" if tau else "")
            mon.close(out[0], ref[0], f"{kind}: loss", rtol=1e-7, atol=1e-7)
            mon.event("gradients")
            mon.event("negated", d < 0)
            mon.event("shifted", tau != 0)
            for (pth, a), (_, b) in zip(jtu.tree_flatten_with_path(out[1])[0], jtu.tree_flatten_with_path(ref[1])[0]):
                mon.close(a, b, f"{kind}: gradient{jtu.keystr(pth)}", rtol=tl, atol=tl * (1 + np.abs(np.asarray(b)).max()))
