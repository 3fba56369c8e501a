"""C20: progress meters report true progress and never disturb the solve."""
import contextlib
import io
import math
import re
import threading
import time
import zlib

import numpy as np

PROPERTY = "C20"
RULE = ("one evaluation = one real solve (or a batch / a set of concurrent solves) with a progress meter whose whole output is captured; distinct = (meter, "
        "transformation, solve, refresh setting, seed); non-trivial = the meter printed at least one value between start and end; events: printed values "
        "matched against the true progress, meters opened and closed, concurrent solves")
ASSUMPTIONS = ["the printed text is the observable output; the host-side registry and tqdm's own instance list are inspected for leaks where they exist",
               "batched progress of a fixed step grid = the smallest fraction covered by any batch element after each lock-step iteration",
               "the 100% printed when a failed or early-terminated solve is closed is not judged"]
MIN_EVENTS = {"printed": 1500, "matched": 1200, "meters": 150, "concurrent_meters": 50, "unchanged": 25, "user_meter_steps": 200, "grad": 8}


def _rng(mon, *k):
    return np.random.default_rng(zlib.crc32(repr((mon.seed,) + k).encode()))


class Slow(io.StringIO):
    """A stream on which every write takes a while, to widen any race between meters."""

    def __init__(self, rng, delay):
        super().__init__()
        self.rng, self.delay = rng, delay

    def write(self, s):
        if self.delay:
            for part in (s[:len(s) // 2], s[len(s) // 2:]):
                super().write(part)
                time.sleep(self.delay * self.rng.random())
            return len(s)
        return super().write(s)


@contextlib.contextmanager
def capture(rng=None, delay=0.0):
    out, err = Slow(rng, delay), Slow(rng, delay)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


def registry():
    try:
        from diffrax._progress_meter import _progress_meter_manager as m
        n = len(m.bars)
    except (ImportError, AttributeError):
        n = 0
    import tqdm
    return n, len(getattr(tqdm.tqdm, "_instances", ()))


def text_values(s):
    return [float(q) for q in re.findall(r"(\d+\.\d\d)%", s)]


def tqdm_values(s):
    return [float(q) for q in re.findall(r"(\d+\.\d\d)%\|", s)]


def meter(kind, setting):
    import diffrax as dfx
    return dfx.TextProgressMeter(minimum_increase=setting) if kind == "text" else dfx.TqdmProgressMeter(refresh_steps=setting)


def judge(mon, kind, setting, vals, P, info, final=True):
    """vals: printed percentages of one meter; P: (iterations, batch) true fractions after each iteration."""
    mon.event("printed", len(vals))
    mon.event("meters")
    if not mon.ok(len(vals) >= 2 and vals[0] == 0, "a meter starts at zero", printed=vals[:20], **info):
        return
    mon.ok(vals.count(0.0) >= 1 and vals[-1] == 100, "a meter finishes at completion", printed=vals[-10:], **info)
    mon.ok(all(a <= b for a, b in zip(vals, vals[1:])), "progress never decreases", printed=vals[:60], **info)
    mon.ok(all(0 <= a <= 100 for a in vals), "progress lies between 0 and 1", printed=vals[:60], **info)
    p = P.min(1)
    n = len(p)
    if kind == "text":
        mon.ok(vals.count(100.0) == 1, "a meter finishes exactly once", printed=vals[-10:], **info)
        mon.ok(vals.count(0.0) == 1, "a meter starts exactly once", printed=vals[:10], **info)
        at, k = [], 0          # iteration at which each interior value was printed
        for v in vals[1:]:
            while k < n and abs(100 * p[k] - v) > 0.0051:
                k += 1
            if k == n:
                mon.ok(False, "every printed value is the progress of the slowest element at some step, in order", value=v, printed=vals[:60], **info)
                return
            at.append(k)
            k += 1
            mon.event("matched")
        last = np.zeros(P.shape[1])
        for i in range(n):
            d = P[i] - last
            due = np.all((d > setting + 1e-6) | (P[i] == 1))
            early = not np.all((d > setting - 1e-6) | (P[i] == 1))
            if i in at:
                mon.ok(not early, "a value is printed only after the requested increase", iteration=i, printed=vals[:60], **info)
                last = P[i]
            else:
                mon.ok(not due, "a value is printed once progress has increased enough", iteration=i, printed=vals[:60], **info)
    else:
        true = np.concatenate([[0.0], 100 * p, [100.0]])
        for v in vals:
            mon.le(float(np.abs(true - v).min()), 0.0051, "every displayed value is the progress of the slowest element at some step", displayed=v, **info)
            mon.event("matched")
        due = [i for i in range(n) if i % setting == 0]
        for i in due:
            mon.le(float(np.abs(np.array(vals) - 100 * p[i]).min()), 0.0051, "the bar is refreshed every refresh_steps steps", iteration=i, printed=vals[:60], **info)
        mon.ok(len(due) + 1 <= len(vals) <= 2 * len(due) + 4, "the bar is refreshed only every refresh_steps steps", refreshes=len(vals), due=len(due), **info)


def same(mon, a, b, what, info):
    import jax
    la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
    mon.event("unchanged")
    ok = len(la) == len(lb)
    for x, y in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype.kind in "iub":
            ok &= np.array_equal(x, y)
        else:
            tol = 1e-4 if x.dtype == np.float32 else 1e-9
            ok &= bool(np.all((np.abs(x - y) <= tol * (1 + np.abs(y))) | (x == y) | (np.isnan(x) & np.isnan(y))))
    mon.ok(ok, what, **info)


# ---------------------------------------------------------------- one meter, any transformation
def expected(ns):
    """true progress after each lock-step iteration: element j covers its interval in ns[j] equal steps"""
    n = max(ns)
    return np.stack([np.minimum(1.0, np.arange(1, n + 1) / q) for q in ns], 1)


def fixed(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    kind, tr = p["meter"], p["tr"]
    rng = _rng(mon, "fixed", kind, tr)
    for rep in range(p["n"]):
        setting = float(rng.choice([0.0, 0.0213, 0.1037, 0.31])) if kind == "text" else int(rng.choice([1, 2, 3, 7, 20]))
        back = bool(rng.integers(2))
        dt = jnp.float32 if tr == "f32" else jnp.float64
        ns = [int(q) for q in rng.integers(5, 75, size=4)]
        pm = meter(kind, setting)
        t0 = float(rng.uniform(-3, 3))
        h = 0.03125

        def solve(t0, T, y, pm, adj=None, ev=None):
            term = dfx.ODETerm(lambda t, y, args: -y * jnp.cos(t))
            kw = {} if adj is None else dict(adjoint=adj)
            s = -1 if back else 1
            sol = dfx.diffeqsolve(term, dfx.Midpoint(), t0, t0 + s * T, s * jnp.asarray(h, dt), y, progress_meter=pm, max_steps=128, **kw)
            return sol.ys, sol.ts, sol.stats["num_steps"], sol.stats["num_accepted_steps"]
        t0 = round(t0 * 32) / 32
        y = jnp.asarray(rng.normal(size=(4, 2)), dt)
        Ts = jnp.asarray(np.array(ns) * h, dt)
        t0 = jnp.asarray(t0, dt)
        one = lambda pm: (lambda T, y: solve(t0, T, y, pm))
        two = None
        if tr in ("plain", "f32"):
            f, a, P = (lambda pm: jax.jit(one(pm))), (Ts[0], y[0]), [expected(ns[:1])]
        elif tr == "eager":
            f, a, P = (lambda pm: one(pm)), (Ts[0], y[0]), [expected(ns[:1])]
        elif tr == "vmap":
            f, a, P = (lambda pm: jax.jit(jax.vmap(one(pm)))), (Ts, y), [expected(ns)]
        elif tr == "vmap_y":
            f, a, P = (lambda pm: jax.jit(jax.vmap(one(pm), in_axes=(None, 0)))), (Ts[0], y), [expected(ns[:1])]
        elif tr == "vmap_eager":
            f, a, P = (lambda pm: jax.vmap(one(pm))), (Ts, y), [expected(ns)]
        elif tr == "vmap2":
            f, a, P = (lambda pm: jax.jit(jax.vmap(jax.vmap(one(pm))))), (Ts.reshape(2, 2), y.reshape(2, 2, 2)), [expected(ns)]
        elif tr == "map":
            f, a, P = (lambda pm: jax.jit(lambda T, y: jax.lax.map(lambda q: one(pm)(*q), (T, y)))), (Ts, y), [expected([q]) for q in ns]
        elif tr == "pair":       # two independent solves in one program
            f = lambda pm: jax.jit(lambda T, y: (one(pm)(T[0], y[0]), one(pm)(T[1], y[1])))
            a, P, two = (Ts, y), [expected(ns[:1]), expected(ns[1:2])], True
            if kind == "tqdm":
                continue
        elif tr in ("grad", "gradT", "vgrad", "jvp", "backsolve", "direct"):
            adj = dict(backsolve=dfx.BacksolveAdjoint(), direct=dfx.DirectAdjoint(), jvp=dfx.ForwardMode()).get(tr)

            def loss(T, y, pm):
                o = solve(t0, T, y, pm, adj)
                return jnp.sum(o[0] ** 2), o
            arg = 0 if tr in ("gradT", "jvp") else 1
            if tr == "jvp":
                g = lambda pm: (lambda T, y: jax.jvp(lambda T: loss(T, y, pm)[0], (T,), (jnp.ones_like(T),)))
            else:
                g = lambda pm: jax.value_and_grad(lambda T, y: loss(T, y, pm), argnums=arg, has_aux=True)
            mon.event("grad")
            if tr == "vgrad":
                f, a, P = (lambda pm: jax.jit(jax.vmap(g(pm)))), (Ts, y), [expected(ns)]
            else:
                f, a, P = (lambda pm: jax.jit(g(pm))), (Ts[0], y[0]), [expected(ns[:1])]
        info = dict(meter=kind, transformation=tr, setting=setting, backwards=back, steps=ns)
        before = registry()
        fn = f(pm)
        runs = 2 if rep == 0 else 1
        for r in range(runs):          # (a compiled solve is run again: the meter starts afresh)
            with capture() as (out, err):
                o = fn(*a)
                jax.block_until_ready(o)
                jax.effects_barrier()
            vals = text_values(out.getvalue()) if kind == "text" else tqdm_values(err.getvalue())
            mon.case(("fixed", kind, tr, setting, back, rep, r), nontrivial=len(vals) > 2)
            if two:
                split_concurrent(mon, vals, [(ns[0], 1), (ns[1], 1)], setting, info)
            elif len(P) == 1:
                judge(mon, kind, setting, vals, P[0], info)
            else:
                # consecutive meters: split at each start
                starts = [i for i, v in enumerate(vals) if v == 0 and (i == 0 or vals[i - 1] == 100)]
                if mon.ok(len(starts) == len(P), "one meter per solve", printed=vals[:80], **info):
                    for s, e, q in zip(starts, starts[1:] + [len(vals)], P):
                        judge(mon, kind, setting, vals[s:e], q, info)
            mon.ok(registry() == before, "the meter releases its resources", before=before, after=registry(), **info)
        if rep == 0:
            same(mon, o, f(dfx.NoProgressMeter())(*a), "using a meter changes neither the solution nor its statistics", info)


def split_concurrent(mon, vals, solves, setting, info):
    """Interleaved output of several text meters with identifiable step counts (setting must be < 1/n): every meter's values appear in order, exactly once."""
    if setting:
        mon.ok(vals.count(0.0) == len(solves) and vals.count(100.0) == len(solves), "every concurrent meter starts once and finishes once", printed=vals[:80], **info)
        mon.event("printed", len(vals))
        return
    import collections
    want = collections.Counter()
    seqs = []
    for n, r in solves:
        s = [round(100 * (i / n), 2) for i in range(n + 1)]
        seqs += [s] * r
        for v in s:
            want[v] += r
    got = collections.Counter(vals)
    mon.event("printed", len(vals))
    mon.event("concurrent_meters", len(seqs))
    # rounding to two decimals of a float that is not exactly i/n
    def near(c, v):
        for q in (v, round(v + .01, 2), round(v - .01, 2)):
            if c.get(q, 0):
                return q
        return None
    rest = got.copy()
    missing = []
    for v, c in want.items():
        for _ in range(c):
            q = near(rest, v)
            if q is None:
                missing.append(v)
            else:
                rest[q] -= 1
                mon.event("matched")
    extra = [v for v, c in rest.items() if c > 0]
    mon.ok(not missing and not extra, "every concurrent meter reports each of its own steps exactly once", missing=missing[:10], extra=extra[:10],
           solves=[list(q) for q in solves], **{k: v for k, v in info.items() if k != "steps"})


PRIMES = [7, 11, 13, 17, 19, 23, 29, 31]


def threads(p, mon):
    """Solves with text meters from several threads at once on a slow stream: each step count identifies its solve."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, "threads", p["mode"])
    K, R = p["threads"], p["repeats"]
    pm = dfx.TextProgressMeter(minimum_increase=0.0)

    def solve(ts):
        term = dfx.ODETerm(lambda t, y, args: -y)
        sol = dfx.diffeqsolve(term, dfx.Euler(), ts[0], ts[-1], None, jnp.ones(2), stepsize_controller=dfx.StepTo(ts=ts), progress_meter=pm,
                              max_steps=len(ts) - 1, saveat=dfx.SaveAt(t1=True))
        return sol.ys
    ns = PRIMES[:K]
    if p["mode"] == "tqdm":
        pm = dfx.TqdmProgressMeter(refresh_steps=1)
    fns = [jax.jit(solve) for _ in range(K)]
    tss = [jnp.linspace(0.0, 1.0, n + 1) for n in ns]
    if p["mode"] != "cold":
        with capture():
            for f, t in zip(fns, tss):
                jax.block_until_ready(f(t))
            jax.effects_barrier()
    before = registry()
    errors, outs = [], [None] * K
    bar = threading.Barrier(K)

    def go(i):
        try:
            bar.wait()
            for _ in range(R):
                o = fns[i](tss[i])
                jax.block_until_ready(o)
                outs[i] = o
                time.sleep(float(rng.random()) * 2e-3)
        except BaseException as e:
            errors.append(f"{type(e).__name__}: {str(e)[:200]}")
    with capture(rng, p["delay"]) as (out, err):
        T = [threading.Thread(target=go, args=(i,)) for i in range(K)]
        [t.start() for t in T]
        [t.join(240) for t in T]
        jax.effects_barrier()
    info = dict(threads=K, repeats=R, mode=p["mode"], delay=p["delay"])
    mon.case(("threads", p["mode"], K, R))
    mon.ok(not errors, "concurrent solves with meters complete", errors=errors[:3], **info)
    mon.ok(not any(t.is_alive() for t in T), "concurrent solves with meters do not deadlock", **info)
    if p["mode"] == "tqdm":
        vals = tqdm_values(err.getvalue())
        # every bar is opened at 0 and closed at 100; a bar may be redrawn by others
        want = {round(100 * i / n, 2) for n in ns for i in range(n + 1)}
        bad = [v for v in vals if min(abs(v - w) for w in want) > .011]
        mon.event("concurrent_meters", K * R)
        mon.event("printed", len(vals))
        mon.ok(not bad, "every displayed value is the progress of some concurrent solve", bad=bad[:10], **info)
        got = {w for w in want if any(abs(v - w) < .011 for v in vals)}
        mon.ok(got == want, "every concurrent bar displays its progress", missing=sorted(want - got)[:10], **info)
    else:
        split_concurrent(mon, text_values(out.getvalue()), [(n, R) for n in ns], 0.0, info)
        # order: within one solve a later step is never reported before an earlier one
        vals = text_values(out.getvalue())
        for n in ns:
            s = [round(100 * (i / n), 2) for i in range(1, n)]
            seq = []
            for v in vals:
                k = [i for i, w in enumerate(s) if abs(v - w) < .0051]
                if k and not any(m != n and abs(v - 100 * j / m) < .0102 for m in ns for j in range(1, m)):
                    seq.append(k[0])
            resets = sum(b <= a for a, b in zip(seq, seq[1:]))
            mon.ok(resets == R - 1, "each concurrent meter reports its steps in order", n=n, resets=resets, **info)
    mon.ok(registry() == before, "concurrent meters release their resources", before=before, after=registry(), **info)
    for o in outs:
        if o is not None:
            mon.ok(bool(np.all(np.isfinite(np.asarray(o)))), "the concurrent solve is intact", **info)


# ---------------------------------------------------------------- adaptive solves: values come from the accepted steps
def adaptive(p, mon):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    kind = p["meter"]
    rng = _rng(mon, "adaptive", kind, p["tr"])
    setting = 0.0 if kind == "text" else 1
    pm = meter(kind, setting)

    def solve(w, y, t1, pm):
        term = dfx.ODETerm(lambda t, y, args: jnp.stack([y[1], -w * y[0] * (1 + 5 * jnp.sin(7 * t) ** 2)]))
        ctrl = dfx.PIDController(rtol=1e-5, atol=1e-6)
        kw = {}
        if p["tr"].startswith("event"):
            kw = dict(event=dfx.Event(lambda t, y, args, **k: t - p["tev"], None), adjoint=dfx.ForwardMode())
        sol = dfx.diffeqsolve(term, dfx.Tsit5(), 0.0, t1, 0.5, y, stepsize_controller=ctrl, saveat=dfx.SaveAt(steps=True, t0=True), max_steps=256, progress_meter=pm, throw=False, **kw)
        return sol.ts, sol.ys, sol.stats["num_steps"], sol.stats["num_accepted_steps"], sol.stats["num_rejected_steps"]
    for rep in range(p["n"]):
        w = jnp.asarray(10.0 ** rng.uniform(0, 2, size=3))
        y = jnp.asarray(rng.normal(size=(3, 2)))
        t1 = jnp.asarray(rng.uniform(.7, 3, size=3))
        batched = p["tr"].endswith("vmap")
        f = (lambda pm: jax.jit(jax.vmap(lambda *a: solve(*a, pm)))) if batched else (lambda pm: jax.jit(lambda *a: solve(*a, pm)))
        a = (w, y, t1) if batched else (w[0], y[0], t1[0])
        before = registry()
        with capture() as (out, err):
            o = f(pm)(*a)
            jax.block_until_ready(o)
            jax.effects_barrier()
        vals = text_values(out.getvalue()) if kind == "text" else tqdm_values(err.getvalue())
        info = dict(meter=kind, transformation=p["tr"], rep=rep)
        mon.case(("adaptive", kind, p["tr"], rep), nontrivial=len(vals) > 3)
        mon.event("printed", len(vals))
        mon.event("meters")
        mon.ok(registry() == before, "the meter releases its resources", before=before, after=registry(), **info)
        ts = np.asarray(o[0])
        ts = ts if batched else ts[None]
        fr = [np.concatenate([[0.0], (q[np.isfinite(q)] / T)]) for q, T in zip(ts, np.asarray(t1) if batched else [float(t1[0])])]
        mon.ok(len(vals) >= 2 and vals[0] == 0 and vals[-1] == 100, "a meter starts at zero and finishes", printed=vals[:40], **info)
        mon.ok(all(b >= a for a, b in zip(vals, vals[1:])), "progress never decreases", printed=vals[:60], **info)
        if kind == "text":
            mon.ok(vals.count(100.0) == 1 and vals.count(0.0) == 1, "a meter starts and finishes exactly once", printed=vals[:60], **info)
        allf = np.concatenate(fr + [[1.0]]) * 100
        for v in vals:
            mon.le(float(np.abs(allf - v).min()), .0051, "every reported value is the progress of a batch element at an accepted step", value=v, **info)
            mon.event("matched")
        if not batched and not p["tr"].startswith("event"):
            seen = sorted(set(vals))
            want = sorted({round(float(q) * 100, 2) for q in fr[0]})
            miss = [q for q in want if min(abs(q - v) for v in seen) > .011]
            mon.ok(not miss, "every accepted step advances the meter", missing=miss[:10], **info)
        same(mon, o, f(dfx.NoProgressMeter())(*a), "using a meter changes neither the solution nor its statistics", info)


# ---------------------------------------------------------------- user-written meters
def usermeter(p, mon):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    rng = _rng(mon, "usermeter", p["tr"])
    log = []

    class Counting(dfx.AbstractProgressMeter):
        def init(self):
            return (jnp.array(0), jnp.array(0.0), jnp.array(True), jnp.array(0.0))

        def step(self, state, progress):
            n, last, mono, tot = state
            progress = jnp.asarray(progress, last.dtype)
            return n + 1, progress, mono & (progress >= last) & (progress >= 0) & (progress <= 1), tot + progress

        def close(self, state):
            jax.debug.callback(lambda *s: log.append([np.asarray(q) for q in s]), *state)
    pm = Counting()

    def solve(w, y, t1, pm, dt0=None):
        term = dfx.ODETerm(lambda t, y, args: -w * y + jnp.sin(9 * t))
        if p["tr"] == "const":
            sol = dfx.diffeqsolve(term, dfx.Heun(), 0.0, t1, .1, y, progress_meter=pm, max_steps=64)
        else:
            sol = dfx.diffeqsolve(term, dfx.Bosh3(), 0.0, t1, .3, y, stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-5), progress_meter=pm, max_steps=512)
        return sol.ts, sol.ys, sol.stats["num_steps"], sol.stats["num_accepted_steps"]
    for rep in range(p["n"]):
        w = jnp.asarray(10.0 ** rng.uniform(-1, 1.5))
        a = (w, jnp.asarray(rng.normal(size=2)), jnp.asarray(float(rng.uniform(.5, 4)) * rng.choice([-1, 1]) if p["tr"] == "adaptive" else float(rng.uniform(.5, 4))))
        if p["tr"] == "adaptive" and float(a[2]) < 0:
            a = (a[0], a[1], -a[2])
        log.clear()
        f = lambda pm: jax.jit(lambda *a: solve(*a, pm))
        o = f(pm)(*a)
        jax.block_until_ready(o)
        jax.effects_barrier()
        info = dict(transformation=p["tr"], rep=rep, log=[[float(np.max(q)) for q in s] for s in log][:4])
        mon.case(("user", p["tr"], rep))
        mon.event("meters")
        if mon.ok(len(log) == 1, "a user meter is closed exactly once", **info):
            n, last, mono, tot = log[0]
            mon.event("user_meter_steps", int(n))
            mon.ok(int(n) == int(o[2]), "a user meter is called on every numerical step", steps=int(o[2]), **info)
            mon.ok(float(last) == 1.0, "a user meter ends at one", **info)
            mon.ok(bool(mono), "a user meter sees non-decreasing progress in [0, 1]", **info)
        same(mon, o, f(dfx.NoProgressMeter())(*a), "using a user meter changes neither the solution nor its statistics", info)
        # and the meter must not stand in the way of gradients
        g = lambda pm: jax.jit(jax.grad(lambda w, t1: jnp.sum(solve(w, a[1], t1, pm)[1] ** 2), argnums=(0, 1)))
        log.clear()
        d1, d0 = g(pm)(a[0], a[2]), g(dfx.NoProgressMeter())(a[0], a[2])
        jax.effects_barrier()
        mon.event("grad")
        same(mon, d1, d0, "using a user meter does not change gradients", info)
        if rep > 2:
            break


def failing(p, mon):
    """Solves that stop early or fail: meters are still released, and what they report is still true."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    kind = p["meter"]
    rng = _rng(mon, "failing", kind)
    term = dfx.ODETerm(lambda t, y, args: -y)
    bad = dfx.ODETerm(lambda t, y, args: jnp.where(t > .5, jnp.inf, -y))
    for name in ("max_steps", "max_steps_throw", "max_steps_throw_eager", "nonfinite", "event", "empty"):
        n = int(rng.integers(20, 60))
        pm = meter(kind, 0.0 if kind == "text" else 1)
        kw = dict(progress_meter=pm, max_steps=n // 2 if name.startswith("max_steps") else 200, throw="throw" in name)
        tt, tm = jnp.asarray(1.0 if name != "empty" else 0.0), term
        ctrl = dfx.ConstantStepSize()
        if name == "nonfinite":
            tm, ctrl = bad, dfx.PIDController(rtol=1e-3, atol=1e-3, dtmin=1e-3)
        if name == "event":
            kw["event"] = dfx.Event(lambda t, y, args, **k: t > .4)

        def run(t1):
            return dfx.diffeqsolve(tm, dfx.Heun(), 0.0, t1, 1 / n, jnp.ones(2), stepsize_controller=ctrl, **kw).ys
        before = registry()
        raised = None
        with capture() as (out, err):
            try:
                jax.block_until_ready((run if name.endswith("eager") else jax.jit(run))(tt))
            except Exception as e:
                raised = type(e).__name__
            try:
                jax.effects_barrier()
            except Exception:
                pass
        vals = text_values(out.getvalue()) if kind == "text" else tqdm_values(err.getvalue())
        info = dict(meter=kind, failure=name, raised=raised, steps=n)
        mon.case(("failing", kind, name))
        mon.event("meters")
        mon.ok((raised is not None) == ("throw" in name), "the failure is still raised (only) when asked for", **info)
        mon.ok(registry() == before, "a failing solve releases its meter", before=before, after=registry(), **info)
        mon.ok(len(vals) >= 1 and vals[0] == 0, "a meter starts at zero", printed=vals[:20], **info)
        mon.ok(all(b >= a for a, b in zip(vals, vals[1:])), "progress never decreases", printed=vals[:60], **info)
        body = [v for v in vals if v != 100.0]
        lim = {"max_steps": 100 * (n // 2) / n, "nonfinite": 51.0, "event": 100 * (.4 + 1 / n) + .02, "empty": 0.0}[name.split("_throw")[0]]
        mon.le(max(body, default=0), lim + .011, "an unfinished solve does not report progress it has not made", printed=vals[-10:], **info)


TRS = ("plain", "eager", "f32", "vmap", "vmap_y", "vmap_eager", "vmap2", "map", "pair", "grad", "gradT", "vgrad", "jvp", "backsolve", "direct")


def tasks(tier, seed):
    th = tier == "thorough"
    out = []
    for m in ("text", "tqdm"):
        for i, tr in enumerate(TRS):
            if m == "tqdm" and tr == "pair":
                continue
            heavy = tr in ("grad", "gradT", "vgrad", "backsolve", "direct")
            out.append((f"fixed-{m}-{tr}", dict(meter=m, tr=tr, n=(2 if heavy else 3) if not th else 16, _cost=4 if heavy else 3)))
        for tr in ("plain", "vmap"):
            out.append((f"adaptive-{m}-{tr}", dict(meter=m, tr=tr, n=2 if not th else 16, _cost=3)))
        out.append((f"failing-{m}", dict(meter=m, _cost=3)))
    for tr in ("const", "adaptive"):
        out.append((f"usermeter-{tr}", dict(tr=tr, n=3 if not th else 4, _cost=4)))
    out.append(("threads-warm", dict(mode="warm", threads=8, repeats=8 if not th else 60, delay=4e-4, _cost=8)))
    out.append(("threads-cold", dict(mode="cold", threads=8, repeats=2 if not th else 10, delay=4e-4, _cost=8)))
    out.append(("threads-fast", dict(mode="fast", threads=8, repeats=15 if not th else 300, delay=0.0, _cost=8)))
    out.append(("threads-tqdm", dict(mode="tqdm", threads=6, repeats=3 if not th else 20, delay=1e-4, _cost=8)))
    return out


def run(name, p, mon):
    {"fixed": fixed, "threads": threads, "adaptive": adaptive, "usermeter": usermeter, "failing": failing}[name.split("-")[0]](p, mon)
