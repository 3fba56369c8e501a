"""Recording wrappers (public API only) and a small library of problems."""
from typing import Any

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np


def flat(y):
    ls = [jnp.ravel(jnp.asarray(x)) for x in jtu.tree_leaves(y)]
    return jnp.concatenate(ls) if len(ls) > 1 else ls[0]


# ---------------------------------------------------------------- recording controller
def _rec_init(self, terms, t0, t1, y0, dt0, args, func, error_order):
    tnext, st = self.inner.init(terms, t0, t1, y0, dt0, args, func, error_order)
    N, D = self.size, flat(y0).shape[0]
    td, yd = jnp.result_type(t0), jnp.result_type(flat(y0))
    log = dict(
        n=jnp.array(0), init_tnext=jnp.asarray(tnext, td),
        t0=jnp.full(N, jnp.nan, td), t1=jnp.full(N, jnp.nan, td),
        tprev=jnp.full(N, jnp.nan, td), tnext=jnp.full(N, jnp.nan, td),
        y0=jnp.full((N, D), jnp.nan, yd), y1=jnp.full((N, D), jnp.nan, yd),
        err=jnp.full((N, D), jnp.nan, yd), keep=jnp.zeros(N, bool),
        jump=jnp.zeros(N, bool), okay=jnp.zeros(N, bool),
        eorder=jnp.full(N, jnp.nan),
    )
    return tnext, (st, log)


def _rec_adapt(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
    st, log = controller_state
    keep, tprev, tnext, jump, st, result = self.inner.adapt_step_size(
        t0, t1, y0, y1_candidate, args, y_error, error_order, st)
    n = log["n"]
    err = jnp.zeros_like(log["err"][0]) if y_error is None else flat(y_error)
    new = dict(n=n + 1, init_tnext=log["init_tnext"])
    eo = jnp.nan if error_order is None else error_order
    for k, v in dict(t0=t0, t1=t1, tprev=tprev, tnext=tnext, y0=flat(y0), y1=flat(y1_candidate),
                     err=err, keep=keep, jump=jump, okay=result == dfx.RESULTS.successful,
                     eorder=eo).items():
        new[k] = log[k].at[n].set(v)
    return keep, tprev, tnext, jump, (st, new), result


class Rec(dfx.AbstractStepSizeController):
    inner: Any
    size: int = eqx.field(static=True)

    def wrap(self, direction):
        return Rec(self.inner.wrap(direction), self.size)

    init = _rec_init
    adapt_step_size = _rec_adapt


class RecA(dfx.AbstractAdaptiveStepSizeController):
    inner: Any
    size: int = eqx.field(static=True)
    rtol: Any
    atol: Any
    norm: Any

    def wrap(self, direction):
        return RecA(self.inner.wrap(direction), self.size, self.rtol, self.atol, self.norm)

    init = _rec_init
    adapt_step_size = _rec_adapt


def record(controller, size, rtol=None, atol=None, norm=None):
    """Wrap `controller`; adaptive if it is (or if tolerances are given)."""
    c = controller
    while isinstance(c, dfx.ClipStepSizeController):
        c = c.controller
    if isinstance(c, dfx.AbstractAdaptiveStepSizeController):
        return RecA(controller, size, c.rtol, c.atol, c.norm)
    return Rec(controller, size)


def unlog(controller_state):
    """numpy log of one (unbatched) recorded solve, trimmed."""
    log = jtu.tree_map(np.asarray, controller_state[1])
    n = int(log["n"])
    return {k: (v[: n] if np.ndim(v) >= 1 else v) for k, v in log.items()}


def unbatch(tree, i):
    return jtu.tree_map(lambda x: np.asarray(x)[i], tree)


# ---------------------------------------------------------------- scripted controller
class Scripted(dfx.AbstractStepSizeController):
    """A user-written controller: accepts/rejects and sizes steps from a fixed script."""
    sizes: Any  # relative sizes of attempts
    accept: Any
    dt: Any

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + self.dt * self.sizes[0], jnp.array(1)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        k = controller_state
        n = self.sizes.shape[0]
        keep = self.accept[(k - 1) % n]
        tprev = jnp.where(keep, t1, t0)
        h = jnp.where(keep, self.dt * self.sizes[k % n], (t1 - t0) * (0.4 + 0.1 * self.sizes[k % n]))
        return keep, tprev, tprev + h, False, k + 1, dfx.RESULTS.successful


# ---------------------------------------------------------------- problems
class FnTerm:
    pass


def vf(t, y, args):
    """Nonlinear, time-dependent, smooth; args = dict(A, b, w, c)."""
    return args["A"] @ y + args["c"] * jnp.tanh(y[::-1]) + args["b"] * jnp.sin(args["w"] * t)


def vf_args(rng, D, scale=1.0):
    A = rng.normal(size=(D, D)) * 0.6 - 0.5 * np.eye(D)
    return dict(A=A * scale, b=rng.normal(size=D) * scale, w=np.float64(rng.uniform(0.5, 3.0) * scale),
                c=rng.normal(size=D) * scale)


def vf_half(t, y, args):  # implicit part of a split field
    return args["A"] @ y


def vf_rest(t, y, args):
    return args["c"] * jnp.tanh(y[::-1]) + args["b"] * jnp.sin(args["w"] * t)


def norm_terms(kind, direction=1):
    """The problem in the solver's own time s = direction * t (reference orientation)."""
    d = direction
    wrap = (lambda f: f) if d == 1 else (lambda f: (lambda t, y, a: jtu.tree_map(lambda x: d * x, f(d * t, y, a))))
    if kind == "single":
        return dfx.ODETerm(wrap(vf))
    if kind == "multi":
        return dfx.MultiTerm(dfx.ODETerm(wrap(vf_rest)), dfx.ODETerm(wrap(vf_half)))
    if kind == "pair":
        return (dfx.ODETerm(wrap(pair_f)), dfx.ODETerm(wrap(pair_g)))
    raise ValueError(kind)


def pair_f(t, y, args):  # dy1 = f(t, y2)
    return args["A"] @ y + args["b"] * jnp.sin(args["w"] * t)


def pair_g(t, y, args):
    return -jnp.sin(y) * args["c"] + args["b"] * jnp.cos(args["w"] * t)


def tight_root():
    import optimistix as optx

    return optx.Newton(rtol=1e-10, atol=1e-11, norm=optx.max_norm)


def ode_solvers(fixed_tols=False):
    """name -> (solver, problem kind, implicit?, history?). fixed_tols: False, True or a root finder."""
    rf = {} if fixed_tols is False else dict(root_finder=tight_root() if fixed_tols is True else fixed_tols)
    out = {
        "Euler": (dfx.Euler(), "single", False, False),
        "Heun": (dfx.Heun(), "single", False, False),
        "Midpoint": (dfx.Midpoint(), "single", False, False),
        "Ralston": (dfx.Ralston(), "single", False, False),
        "Bosh3": (dfx.Bosh3(), "single", False, False),
        "Tsit5": (dfx.Tsit5(), "single", False, False),
        "Dopri5": (dfx.Dopri5(), "single", False, False),
        "Dopri8": (dfx.Dopri8(), "single", False, False),
        "ImplicitEuler": (dfx.ImplicitEuler(**rf), "single", True, False),
        "Kvaerno3": (dfx.Kvaerno3(**rf), "single", True, False),
        "Kvaerno4": (dfx.Kvaerno4(**rf), "single", True, False),
        "Kvaerno5": (dfx.Kvaerno5(**rf), "single", True, False),
        "KenCarp3": (dfx.KenCarp3(**rf), "multi", True, False),
        "KenCarp4": (dfx.KenCarp4(**rf), "multi", True, False),
        "KenCarp5": (dfx.KenCarp5(**rf), "multi", True, False),
        "Sil3": (dfx.Sil3(**rf), "multi", True, False),
        "SemiImplicitEuler": (dfx.SemiImplicitEuler(), "pair", False, False),
        "ReversibleHeun": (dfx.ReversibleHeun(), "single", False, True),
        "LeapfrogMidpoint": (dfx.LeapfrogMidpoint(), "single", False, True),
        "Half(Heun)": (dfx.HalfSolver(dfx.Heun()), "single", False, False),
        "Half(Tsit5)": (dfx.HalfSolver(dfx.Tsit5()), "single", False, False),
        "Half(Euler)": (dfx.HalfSolver(dfx.Euler()), "single", False, False),
        "Half(Kvaerno3)": (dfx.HalfSolver(dfx.Kvaerno3(**rf)), "single", True, False),
        "Half(SIE)": (dfx.HalfSolver(dfx.SemiImplicitEuler()), "pair", False, False),
    }
    return out


# solvers with an error estimate
ADAPTIVE = ["Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ImplicitEuler",
            "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3",
            "ReversibleHeun", "Half(Heun)", "Half(Tsit5)", "Half(Euler)", "Half(SIE)", "Half(Kvaerno3)"]


def y0_for(kind, rng, D):
    if kind == "pair":
        return (rng.normal(size=D), rng.normal(size=D))
    return rng.normal(size=D)


def stack(trees):
    return jtu.tree_map(lambda *x: np.stack(x), *trees)
