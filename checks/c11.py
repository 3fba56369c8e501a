"""C11: terms: products are bilinear and consistent; sums and wrappers compose.

Random PyTrees, shapes, operators and controls are fed to real terms; every product is re-done in NumPy.
"""
import warnings
import zlib

import numpy as np

PROPERTY = "C11"
RULE = ("one evaluation = one term with random shapes and values (or one solve with it), every product re-computed in NumPy; "
        "distinct = (kind of term, shapes, PyTree); non-trivial = the product is not zero")
ASSUMPTIONS = ["real-valued arrays (complex controls are not judged)"]
MIN_EVENTS = {"products": 350, "linearity": 180, "additivity": 110, "sums": 30, "to_ode": 30, "rejected": 15, "solves": 20, "langevin": 15, "adjoint": 12}


def _rng(mon, *k):
    return np.random.default_rng([mon.seed, zlib.crc32(repr(k).encode())])


def tasks(tier, seed):
    m = 1 if tier == "quick" else 8
    T = [(f"array-{i}", dict(kind="array", i=i)) for i in range(8 * m)]
    T += [(f"oper-{i}", dict(kind="oper", i=i)) for i in range(8 * m)]
    T += [(f"ode-{i}", dict(kind="ode", i=i)) for i in range(4 * m)]
    T += [(f"multi-{i}", dict(kind="multi", i=i)) for i in range(4 * m)]
    T += [(f"toode-{i}", dict(kind="toode", i=i)) for i in range(4 * m)]
    T += [(f"uld-{i}", dict(kind="uld", i=i)) for i in range(4 * m)]
    T += [(f"solve-{i}", dict(kind="solve", i=i, _cost=2)) for i in range(4 * m)]
    T += [(f"wrap-{i}", dict(kind="wrap", i=i)) for i in range(2 * m)]
    T += [(f"adjoint-{i}", dict(kind="adjoint", i=i)) for i in range(2 * m)]
    T.append(("reject", dict(kind="reject")))
    return T


def run(name, p, mon):
    import jax  # noqa: F401

    return globals()["run_" + p["kind"]](name, p, mon, _rng(mon, name))


def _shape(rng, lo=0, hi=3):
    return tuple(int(x) for x in rng.integers(1, 4, size=rng.integers(lo, hi)))


def _tree(rng, leaf, depth=2):
    """random PyTree with leaves made by leaf()"""
    k = rng.integers(4) if depth else 0
    if k == 0:
        return leaf()
    if k == 1:
        return {f"k{i}": _tree(rng, leaf, depth - 1) for i in range(rng.integers(1, 3))}
    if k == 2:
        return tuple(_tree(rng, leaf, depth - 1) for i in range(rng.integers(1, 4)))
    return [_tree(rng, leaf, depth - 1) for i in range(rng.integers(1, 3))]


def _map(f, *t):
    import jax.tree_util as jtu

    return jtu.tree_map(f, *t)


def _leaves(t):
    import jax.tree_util as jtu

    return [np.asarray(x) for x in jtu.tree_leaves(t)]


def _cmp(mon, got, want, what, rtol=1e-11, atol=1e-11, **kw):
    import jax.tree_util as jtu

    mon.ok(jtu.tree_structure(got) == jtu.tree_structure(want), what + ": structure", got=str(jtu.tree_structure(got)), want=str(jtu.tree_structure(want)))
    for a, b in zip(_leaves(got), _leaves(want)):
        if a.shape != np.shape(b):
            mon.fail(what + ": shape", got=list(a.shape), want=list(np.shape(b)))
        else:
            mon.close(a, b, what, rtol=rtol, atol=atol, **kw)


def _lin(a, x, b, y):
    return _map(lambda u, v: a * u + b * v, x, y)


def _path_control(rng, tree, kind):
    """a control path with the given tree of shapes; returns (control, increments(t0,t1), derivative(t))"""
    import diffrax as dfx
    import jax.numpy as jnp

    co = _map(lambda s: rng.normal(size=(3,) + s.shape), tree)

    def val(t):
        return _map(lambda c: c[0] * np.sin(t) + c[1] * t ** 2 + c[2] * t, co)

    def jval(t):
        return _map(lambda c: c[0] * jnp.sin(t) + c[1] * t ** 2 + c[2] * t, co)

    def der(t):
        return _map(lambda c: c[0] * np.cos(t) + 2 * c[1] * t + c[2], co)

    def inc(a, b):
        return _map(lambda x, y: y - x, val(a), val(b))

    if kind == "callable":
        return (lambda t0, t1: _map(lambda x, y: y - x, jval(t0), jval(t1))), inc, der
    if kind == "path":
        class P(dfx.AbstractPath):
            t0 = 0.0
            t1 = 1.0

            def evaluate(self, t0, t1=None, left=True):
                if t1 is None:
                    return jval(t0)
                return _map(lambda x, y: y - x, jval(t0), jval(t1))
        return P(), inc, der
    if kind == "linear":
        ts = np.linspace(-1.0, 2.0, 9)
        data = _map(lambda c: np.stack([c[0] * np.sin(t) + c[1] * t ** 2 + c[2] * t for t in ts]), co)

        def interp(t):
            return _map(lambda x: np.apply_along_axis(lambda col: np.interp(t, ts, col), 0, x), data)

        def d(t):
            i = np.clip(np.searchsorted(ts, t, side="left") - 1, 0, len(ts) - 2)
            return _map(lambda x: (x[i + 1] - x[i]) / (ts[i + 1] - ts[i]), data)
        return dfx.LinearInterpolation(jnp.asarray(ts), _map(jnp.asarray, data)), (lambda a, b: _map(lambda x, y: y - x, interp(a), interp(b))), d
    if kind == "vbt":
        import jax
        import jax.random as jr
        key = jr.PRNGKey(int(rng.integers(1 << 30)))
        sh = _map(lambda s: jax.ShapeDtypeStruct(s.shape, jnp.float64), tree)
        bm = dfx.VirtualBrownianTree(-1.0, 2.0, 1e-3, sh, key)
        return bm, (lambda a, b: _map(np.asarray, _map(lambda x, y: y - x, bm.evaluate(a), bm.evaluate(b)))), None
    raise ValueError(kind)


def _check_term(mon, term, vfn, prodn, inc, y, args, rng, what, tol=1e-11):
    """vfn: numpy vector field; prodn(vf, control): numpy product; inc: numpy increment"""
    t = float(rng.uniform(-0.5, 1.5))
    a, b, c = np.sort(rng.uniform(-0.9, 1.9, size=3))
    ab, bc, ac = inc(a, b), inc(b, c), inc(a, c)
    cab, cbc, cac = term.contr(a, b), term.contr(b, c), term.contr(a, c)
    ctol = 1e-9
    _cmp(mon, cab, ab, what + ": control is the increment of the path", atol=ctol)
    _cmp(mon, cac, _map(lambda x, y: x + y, cab, cbc), what + ": control increments add up", atol=ctol)
    mon.event("additivity")
    vf = term.vf(t, y, args)
    want = prodn(vfn(t, y, args), ab)
    _cmp(mon, term.prod(vf, cab), want, what + ": product", atol=ctol)
    _cmp(mon, term.vf_prod(t, y, args, cab), want, what + ": combined product", atol=ctol)
    mon.event("products", 2)
    al, be = rng.normal(size=2)
    lc = _lin(al, cab, be, cbc)
    _cmp(mon, term.prod(vf, lc), _lin(al, term.prod(vf, cab), be, term.prod(vf, cbc)), what + ": product is linear in the control", atol=ctol)
    _cmp(mon, term.vf_prod(t, y, args, lc), _lin(al, term.vf_prod(t, y, args, cab), be, term.vf_prod(t, y, args, cbc)), what + ": combined product is linear in the control", atol=ctol)
    mon.event("linearity", 2)
    return want


CK = ["callable", "path", "linear", "vbt"]


def run_array(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    for j in range(7):
        y = _tree(rng, lambda: rng.normal(size=_shape(rng)))
        ctree = _map(lambda x: np.zeros(_shape(rng)), y)
        ck = CK[(p["i"] + j) % 4]
        control, inc, der = _path_control(rng, ctree, ck)
        G = _map(lambda a, c: rng.normal(size=a.shape + c.shape), y, ctree)
        A = rng.normal(size=2)
        vfn = lambda t, y, args: _map(lambda g, a: g * np.cos(args[0] * t) + np.sin(np.sum(np.asarray(a))) * args[1], G, y)
        vfj = lambda t, y, args: _map(lambda g, a: g * jnp.cos(args[0] * t) + jnp.sin(jnp.sum(a)) * args[1], G, y)
        prodn = lambda v, c: _map(lambda g, x: np.tensordot(np.asarray(g), np.asarray(x), axes=np.ndim(x)), v, c)
        term = dfx.ControlTerm(vfj, control)
        mon.case((name, j, str([x.shape for x in _leaves(y)]), str([x.shape for x in _leaves(ctree)]), ck), sample=dict(y=[x.shape for x in _leaves(y)], control=[x.shape for x in _leaves(ctree)], kind=ck), control=ck)
        _check_term(mon, term, vfn, prodn, inc, y, jnp.asarray(A), rng, "array")


def run_oper(name, p, mon, rng):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import lineax as lx

    for j in range(8):
        kind = ["matrix", "diag", "tree", "function", "identity", "weakdiag", "compose", "sum"][(j + p["i"]) % 8]
        ck = CK[(p["i"] + j // 2) % 4]
        if kind in ("matrix", "compose", "sum"):
            n, m = rng.integers(1, 5, size=2)
            y = rng.normal(size=n)
            ctree = np.zeros(m)
            M, M2 = rng.normal(size=(n, m)), rng.normal(size=(n, m))
            N = rng.normal(size=(n, n))
            if kind == "matrix":
                f = lambda t, y, a: lx.MatrixLinearOperator(jnp.asarray(M) * jnp.cos(a * t))
                fn = lambda t, y, a: M * np.cos(a * t)
            elif kind == "sum":
                f = lambda t, y, a: lx.MatrixLinearOperator(jnp.asarray(M)) + a * lx.MatrixLinearOperator(jnp.asarray(M2))
                fn = lambda t, y, a: M + a * M2
            else:
                f = lambda t, y, a: lx.MatrixLinearOperator(jnp.asarray(N)) @ lx.MatrixLinearOperator(jnp.asarray(M))
                fn = lambda t, y, a: N @ M
            prodn = lambda v, c: v @ np.asarray(c)
        elif kind in ("diag", "weakdiag", "identity"):
            n = int(rng.integers(1, 5))
            y = rng.normal(size=n) if kind != "weakdiag" else _tree(rng, lambda: rng.normal(size=_shape(rng)), 1)
            ctree = _map(lambda x: np.zeros(x.shape), y)
            if kind == "identity":
                f = lambda t, y, a: lx.IdentityLinearOperator(jax.ShapeDtypeStruct((n,), jnp.float64))
                fn = lambda t, y, a: np.ones(n)
            elif kind == "diag":
                f = lambda t, y, a: lx.DiagonalLinearOperator(jnp.sin(y) * a + t)
                fn = lambda t, y, a: np.sin(y) * a + t
            else:
                f = lambda t, y, a: _map(lambda y: jnp.sin(y) * a + t, y)
                fn = lambda t, y, a: _map(lambda y: np.sin(y) * a + t, y)
            prodn = lambda v, c: _map(lambda v, c: v * np.asarray(c), v, c)
        elif kind == "tree":  # a full PyTree-to-PyTree matrix
            y = {"q": rng.normal(size=2), "r": _tree(rng, lambda: rng.normal(size=_shape(rng)), 1)}  # (more than one entry in all: Lineax misreads 1 x 1)
            ctree = _tree(rng, lambda: np.zeros(_shape(rng)), 1)
            G = _map(lambda a: _map(lambda c: rng.normal(size=a.shape + c.shape), ctree), y)
            f = lambda t, y, a: lx.PyTreeLinearOperator(_map(jnp.asarray, G), jax.eval_shape(lambda: _map(jnp.asarray, y)))
            fn = lambda t, y, a: G

            def prodn(v, c):
                return _map(lambda a, row: sum(np.tensordot(g, np.asarray(x), axes=np.ndim(x)) for g, x in zip(_leaves(row), _leaves(c))), y, v)
        else:
            n, m = rng.integers(1, 5, size=2)
            y = rng.normal(size=n)
            ctree = {"a": np.zeros(m), "b": (np.zeros(()),)}
            M = rng.normal(size=(n, m))
            f = lambda t, y, a: lx.FunctionLinearOperator(lambda c: jnp.asarray(M) @ c["a"] + y * c["b"][0], jax.eval_shape(lambda: _map(jnp.asarray, ctree)))
            fn = lambda t, y, a: y
            prodn = lambda v, c: M @ np.asarray(c["a"]) + v * np.asarray(c["b"][0])
        control, inc, der = _path_control(rng, ctree, ck)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            term = dfx.WeaklyDiagonalControlTerm(f, control) if kind == "weakdiag" else dfx.ControlTerm(f, control)
        if kind == "weakdiag" and not isinstance(y, np.ndarray):
            # only arrays are supported by the deprecated shim
            y = rng.normal(size=3)
            control, inc, der = _path_control(rng, np.zeros(3), ck)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                term = dfx.WeaklyDiagonalControlTerm(f, control)
        mon.case((name, j, kind, ck, str([x.shape for x in _leaves(y)])), sample=dict(kind=kind, control=ck), kind=kind, control=ck)
        yy = _map(jnp.asarray, y)
        _check_term(mon, term, lambda t, y_, a: fn(t, y, float(a)), prodn, inc, yy, jnp.asarray(float(rng.normal())), rng, kind)


def run_ode(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    for j in range(12):
        y = _tree(rng, lambda: rng.normal(size=_shape(rng)).astype(np.float32 if rng.integers(4) == 0 else np.float64))
        y = _map(jnp.asarray, y)
        bc = bool(rng.integers(2))  # return something that has to be broadcast
        vfj = lambda t, y, a: _map(lambda x: (jnp.sum(jnp.sin(x)) * 1.0 if bc else jnp.sin(x) * t) * a.astype(x.dtype), y)
        vfn = lambda t, y, a: _map(lambda x: np.broadcast_to((np.sum(np.sin(x)) if bc else np.sin(x) * t) * float(a), np.shape(x)), y)
        term = dfx.ODETerm(vfj)
        a = jnp.asarray(1.3, jnp.float32)
        t = jnp.asarray(0.7, jnp.float32)
        t0, t1, t2 = [jnp.asarray(x, jnp.float32) for x in (0.5, 0.75, 1.5)]  # exact in float32
        vf = term.vf(t, y, a)
        mon.case((name, j, bc, str([x.shape for x in _leaves(y)])), sample=dict(y=[x.shape for x in _leaves(y)], broadcast=bc), broadcast=bc)
        _cmp(mon, vf, vfn(0.7, y, 1.3), "ode: vector field broadcast to the state", rtol=1e-5, atol=1e-5)
        for u, v in zip(_leaves(vf), _leaves(y)):
            mon.ok(u.dtype == v.dtype, "ode: dtype of the vector field is that of the state", got=str(u.dtype), want=str(v.dtype))
        c = term.contr(t0, t1)
        mon.close(float(c), 0.25, "ode: control is the length of the interval")
        mon.close(float(term.contr(t0, t2)), float(c) + float(term.contr(t1, t2)), "ode: control adds up")
        mon.event("additivity")
        want = _map(lambda v: 0.25 * np.asarray(v), vf)
        _cmp(mon, term.prod(vf, c), want, "ode: product", rtol=1e-6)
        _cmp(mon, term.vf_prod(t, y, a, c), want, "ode: combined product", rtol=1e-6)
        for u, v in zip(_leaves(term.prod(vf, c)), _leaves(y)):
            mon.ok(u.dtype == v.dtype, "ode: dtype of the product is that of the state", got=str(u.dtype), want=str(v.dtype))
        mon.event("products", 2)


def run_multi(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx

    for j in range(6):
        y = _tree(rng, lambda: rng.normal(size=_shape(rng)))
        yj = _map(jnp.asarray, y)
        parts, contrs = [], []
        nt = int(rng.integers(1, 5))
        for k in range(nt):
            if rng.integers(2):
                w = float(rng.normal())
                parts.append(dfx.ODETerm(lambda t, y, a, w=w: _map(lambda x: jnp.cos(w * x) * t + a, y)))
            else:
                ctree = _map(lambda x: np.zeros(_shape(rng)), y)
                control, inc, der = _path_control(rng, ctree, CK[int(rng.integers(4))])
                G = _map(lambda a, c: rng.normal(size=a.shape + c.shape), y, ctree)
                parts.append(dfx.ControlTerm(lambda t, y, a, G=G: _map(lambda g, x: g * t + jnp.sum(x), G, y), control))
        multi = dfx.MultiTerm(*parts)
        nested = dfx.MultiTerm(dfx.MultiTerm(*parts[:1]), dfx.MultiTerm(*parts[1:])) if nt > 1 else multi
        t0, t1 = np.sort(rng.uniform(-0.9, 1.9, size=2))
        t, a = float(rng.uniform(0, 1)), 0.3
        each = [q.vf_prod(t, yj, a, q.contr(t0, t1)) for q in parts]
        want = _map(lambda *x: np.sum([np.asarray(z) for z in x], axis=0), *each)
        mon.case((name, j, nt, str([x.shape for x in _leaves(y)])), sample=dict(terms=[type(q).__name__ for q in parts]), n_terms=nt)
        for nm, m in (("flat", multi), ("nested", nested)):
            mon.event("sums")
            _cmp(mon, m.vf_prod(t, yj, a, m.contr(t0, t1)), want, f"sum of terms ({nm}): combined product")
            _cmp(mon, m.prod(m.vf(t, yj, a), m.contr(t0, t1)), want, f"sum of terms ({nm}): product")
            mon.event("products", 2)
        mon.ok(len(multi.contr(t0, t1)) == nt and len(multi.vf(t, yj, a)) == nt, "one vector field and control per part")


def run_toode(name, p, mon, rng):
    import diffrax as dfx
    import jax.numpy as jnp

    for j in range(10):
        ck = ["linear", "path", "linear", "linear"][(p["i"] + j) % 4]
        y = _tree(rng, lambda: rng.normal(size=_shape(rng)), 1)
        ctree = _map(lambda x: np.zeros(_shape(rng)), y)
        control, inc, der = _path_control(rng, ctree, ck)
        if ck == "path" and j % 2 == 0:  # also paths that give their own derivative
            class Q(dfx.AbstractPath):
                t0 = -1.0
                t1 = 2.0

                def evaluate(self, t0, t1=None, left=True):
                    raise RuntimeError("not needed")

                def derivative(self, t, left=True):
                    return _map(jnp.asarray, _map(lambda z: jnp.cos(t) * jnp.ones(z.shape), ctree))
            control, der = Q(), (lambda t: _map(lambda z: np.cos(t) * np.ones(z.shape), ctree))
        G = _map(lambda a, c: rng.normal(size=a.shape + c.shape), y, ctree)
        term = dfx.ControlTerm(lambda t, y, a: _map(lambda g, x: g * jnp.cos(t) + jnp.sum(x), G, y), control)
        ode = term.to_ode()
        mon.ok(isinstance(ode, dfx.ODETerm), "conversion gives an ODETerm")
        for t in rng.uniform(-0.8, 1.8, size=2):
            t = float(t)
            want = _map(lambda g, x, c: np.tensordot(g * np.cos(t) + np.sum(x), c, axes=np.ndim(c)), G, y, der(t))
            mon.case((name, j, ck, t), sample=dict(control=ck, t=t), control=ck)
            mon.event("to_ode")
            _cmp(mon, ode.vf(jnp.asarray(t), _map(jnp.asarray, y), None), want, "converted ODE: vector field times derivative of the control", atol=1e-9, rtol=1e-9)


def run_uld(name, p, mon, rng):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr

    for j in range(6):
        k = (j + p["i"]) % 3
        x = _tree(rng, lambda: rng.normal(size=_shape(rng)), 2 if k else 0)
        v = _map(lambda a: rng.normal(size=a.shape), x)
        if k == 0:
            gamma, u = 0.7, 1.9
            gt, ut = _map(lambda a: gamma, x), _map(lambda a: u, x)
        elif k == 1:
            gamma = _map(lambda a: rng.uniform(0.1, 2, size=a.shape), x)
            u = _map(lambda a: rng.uniform(0.1, 2, size=a.shape), x)
            gt, ut = gamma, u
        else:
            gamma = _map(lambda a: rng.uniform(0.1, 2, size=a.shape), x)
            u = 0.6
            gt, ut = gamma, _map(lambda a: u, x)
        bm = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, jax.eval_shape(lambda: _map(jnp.asarray, x)), jr.PRNGKey(int(rng.integers(1 << 30))))
        grad = lambda z, a: _map(lambda q: jnp.sin(q) * a, z)
        drift = dfx.UnderdampedLangevinDriftTerm(gamma, u, grad)
        diff = dfx.UnderdampedLangevinDiffusionTerm(gamma, u, bm)
        y = (_map(jnp.asarray, x), _map(jnp.asarray, v))
        h = 0.25
        wx = _map(lambda b: h * b, v)
        wv = _map(lambda g, u_, b, a: h * (-g * b - u_ * np.sin(a) * 1.7), gt, ut, v, x)
        mon.case((name, j, k, str([a.shape for a in _leaves(x)])), sample=dict(x=[a.shape for a in _leaves(x)], case=k), case_kind=k)
        mon.event("langevin")
        _cmp(mon, drift.vf_prod(0.0, y, 1.7, drift.contr(0.5, 0.75)), (wx, wv), "Langevin drift")
        _cmp(mon, drift.prod(drift.vf(0.0, y, 1.7), h), (wx, wv), "Langevin drift, product")
        c = diff.contr(0.25, 0.5)
        _cmp(mon, c, bm.evaluate(0.25, 0.5), "Langevin noise increment")
        ww = (_map(lambda a: np.zeros(a.shape), x), _map(lambda g, u_, z: np.sqrt(2 * g * u_) * np.asarray(z), gt, ut, c))
        _cmp(mon, diff.vf_prod(0.0, y, 1.7, c), ww, "Langevin diffusion")
        _cmp(mon, diff.prod(diff.vf(0.0, y, 1.7), c), ww, "Langevin diffusion, product")
        mon.event("products", 4)
    for bad in ({"a": 1.0}, (1.0, 2.0)):
        raised = False
        try:
            dfx.UnderdampedLangevinDriftTerm(bad, 1.0, lambda z, a: z).vf(0.0, (jnp.ones(3), jnp.ones(3)), None)
        except Exception:
            raised = True
        mon.event("rejected")
        mon.ok(raised, "Langevin friction of the wrong structure is accepted", gamma=str(bad))


def run_solve(name, p, mon, rng):
    """the same controlled equation in every representation, solved for real"""
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx

    n, m = int(rng.integers(2, 4)), 3
    i = p["i"]
    n = m if i % 2 else n
    d = 1 if i // 2 % 2 == 0 else -1
    T0, T1 = (0.1, 1.3) if d == 1 else (1.2, 0.0)
    A = rng.normal(size=(n, m)) * 0.5
    diag = i % 2 == 1
    co = rng.normal(size=(3, m))
    val = lambda t, np=np: co[0] * np.sin(t) + co[1] * t ** 2 + co[2] * t
    inc = lambda a, b: val(b, jnp) - val(a, jnp)
    base = (lambda t, y: jnp.diag(jnp.cos(y) * (1 + t))) if diag else (lambda t, y: jnp.asarray(A) * jnp.sum(jnp.cos(y)) + t)
    basen = (lambda t, y: np.diag(np.cos(y) * (1 + t))) if diag else (lambda t, y: A * np.sum(np.cos(y)) + t)
    drift = lambda t, y, a: -a * y
    y0 = rng.normal(size=n)

    class P(dfx.AbstractPath):
        t0 = -5.0
        t1 = 5.0

        def evaluate(self, t0, t1=None, left=True):
            return val(t0, jnp) if t1 is None else inc(t0, t1)

    reps = {
        "array+callable": dfx.ControlTerm(lambda t, y, a: base(t, y), inc),
        "array+path": dfx.ControlTerm(lambda t, y, a: base(t, y), P()),
        "matrix operator": dfx.ControlTerm(lambda t, y, a: lx.MatrixLinearOperator(base(t, y)), inc),
        "function operator": dfx.ControlTerm(lambda t, y, a: lx.FunctionLinearOperator(lambda c: base(t, y) @ c, jnp.zeros(m)), inc),
    }
    if diag:
        reps["diagonal operator"] = dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(jnp.cos(y) * (1 + t)), inc)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            reps["weakly diagonal"] = dfx.WeaklyDiagonalControlTerm(lambda t, y, a: jnp.cos(y) * (1 + t), inc)
    # Heun's method for dy = f dt + g dx, in NumPy
    N = 12
    grid = T0 + (T1 - T0) * np.arange(N + 1) / N
    y = y0.copy()
    for a, b in zip(grid[:-1], grid[1:]):
        h, dx = b - a, val(b) - val(a)
        k1 = -0.4 * y * h + basen(a, y) @ dx
        k2 = -0.4 * (y + k1) * h + basen(b, y + k1) @ dx
        y = y + (k1 + k2) / 2
    for nm, term in reps.items():
        for order in (0, 1):
            parts = (dfx.ODETerm(drift), term)
            s = dfx.diffeqsolve(dfx.MultiTerm(*(parts if order == 0 else parts[::-1])), dfx.Heun(), T0, T1, None, jnp.asarray(y0), 0.4, stepsize_controller=dfx.StepTo(grid.at[-1].set(T1) if hasattr(grid, "at") else np.concatenate([grid[:-1], [T1]])))
            mon.case((name, nm, order), sample=dict(rep=nm, order=order), representation=nm, order=order)
            mon.event("solves")
            mon.close(np.asarray(s.ys[0]), y, "solution of the controlled equation depends on how its term is written", rtol=1e-9, atol=1e-10)
    # conversion to an ODE gives the same solution
    ode = dfx.ControlTerm(lambda t, y, a: base(t, y), P()).to_ode()
    s = dfx.diffeqsolve(dfx.MultiTerm(dfx.ODETerm(drift), ode), dfx.Dopri8(), T0, T1, 0.05 * d, jnp.asarray(y0), 0.4, stepsize_controller=dfx.PIDController(rtol=1e-9, atol=1e-10))
    fine = 2000
    y, h = y0.copy(), (T1 - T0) / fine
    f = lambda t, y: -0.4 * y + basen(t, y) @ (co[0] * np.cos(t) + 2 * co[1] * t + co[2])
    for k in range(fine):
        t = T0 + k * h
        k1 = f(t, y); k2 = f(t + h / 2, y + h / 2 * k1); k3 = f(t + h / 2, y + h / 2 * k2); k4 = f(t + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    mon.case((name, "to_ode"))
    mon.event("solves")
    mon.close(np.asarray(s.ys[0]), y, "solution of the converted equation", rtol=1e-6, atol=1e-7)


def run_wrap(name, p, mon, rng):
    """terms given as they are to a solver's own step: sums of parts act as one vector field"""
    import diffrax as dfx
    import jax.numpy as jnp

    f1 = lambda t, y, a: jnp.sin(y) * t
    f2 = lambda t, y, a: -a * y
    f = lambda t, y, a: f1(t, y, a) + f2(t, y, a)
    y0 = jnp.asarray(rng.normal(size=3))
    for sv in (dfx.Tsit5(), dfx.Heun(), dfx.Euler(), dfx.ReversibleHeun(), dfx.Kvaerno3()):
        ctrl = dfx.PIDController(rtol=1e-6, atol=1e-8)
        kw = dict(stepsize_controller=ctrl) if not isinstance(sv, (dfx.Euler, dfx.ReversibleHeun)) else {}
        one = dfx.diffeqsolve(dfx.ODETerm(f), sv, 0.0, 1.0, 0.1, y0, 0.8, **kw)
        two = dfx.diffeqsolve(dfx.MultiTerm(dfx.ODETerm(f1), dfx.ODETerm(f2)), sv, 0.0, 1.0, 0.1, y0, 0.8, **kw)
        mon.case((name, type(sv).__name__), solver=type(sv).__name__)
        mon.event("solves")
        mon.ok(int(one.stats["num_steps"]) == int(two.stats["num_steps"]), "sum of terms takes other steps than the sum in one term")
        mon.close(np.asarray(two.ys), np.asarray(one.ys), "solution of a sum of terms", rtol=1e-8, atol=1e-9)


def run_reject(name, p, mon, rng):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    import lineax as lx

    bm2 = dfx.VirtualBrownianTree(0.0, 1.0, 1e-2, (2,), jr.PRNGKey(0))
    bm0 = dfx.VirtualBrownianTree(0.0, 1.0, 1e-2, (), jr.PRNGKey(0))
    lin = lambda t0, t1: (t1 - t0) * jnp.ones(2)
    y2, y3 = jnp.ones(2), jnp.ones(3)
    C = dfx.ControlTerm
    bad = {
        "vector noise dotted to a scalar": (C(lambda t, y, a: jnp.array([1.0, 0.5]), bm2), y2),
        "matrix of the wrong size": (C(lambda t, y, a: jnp.ones((3, 2)), bm2), y2),
        "wrong number of columns": (C(lambda t, y, a: jnp.ones((2, 3)), bm2), y2),
        "rank too high": (C(lambda t, y, a: jnp.ones((2, 2, 2)), bm2), y2),
        "scalar noise, matrix field": (C(lambda t, y, a: jnp.ones((2, 2)), bm0), y2),
        "operator of the wrong size": (C(lambda t, y, a: lx.DiagonalLinearOperator(jnp.ones(3)), bm2), y2),
        "operator with the wrong output": (C(lambda t, y, a: lx.MatrixLinearOperator(jnp.ones((3, 2))), bm2), y2),
        "callable control, wrong rows": (C(lambda t, y, a: jnp.ones((3, 2)), lin), y2),
        "field tree, array state": (C(lambda t, y, a: (jnp.ones((2, 2)),), lin), y2),
        "ode structure": (dfx.ODETerm(lambda t, y, a: (y, y)), y2),
        "ode not broadcastable": (dfx.ODETerm(lambda t, y, a: jnp.ones(3)), y2),
        "ode broadcasts the wrong way": (dfx.ODETerm(lambda t, y, a: jnp.ones((3, 2))), y2),
        "ode complex field, real state": (dfx.ODETerm(lambda t, y, a: y * 1j), y2),
    }
    good = {
        "matrix": (C(lambda t, y, a: jnp.ones((2, 2)), bm2), y2),
        "rectangular": (C(lambda t, y, a: jnp.ones((3, 2)), bm2), y3),
        "scalar noise": (C(lambda t, y, a: jnp.ones(3), bm0), y3),
        "operator": (C(lambda t, y, a: lx.MatrixLinearOperator(jnp.ones((3, 2))), lin), y3),
        "ode broadcast": (dfx.ODETerm(lambda t, y, a: jnp.array(1.0)), y2),
    }
    for group, wantbad in ((bad, True), (good, False)):
        for nm, (term, y) in group.items():
            for how in ("vf_prod", "solve") if "complex" not in nm else ("solve",):
                err = None
                try:
                    if how == "vf_prod":
                        term.vf_prod(0.0, y, None, term.contr(0.1, 0.2))
                    else:
                        dfx.diffeqsolve(term, dfx.Euler(), 0.0, 1.0, 0.25, y)
                except Exception as e:  # noqa: BLE001
                    err = e
                mon.case((nm, how), sample=dict(case=nm, error=type(err).__name__), term=nm, how=how)
                if wantbad:
                    mon.event("rejected")
                    mon.ok(err is not None, "shapes that cannot be combined are accepted")
                else:
                    mon.ok(err is None, "shapes that can be combined are rejected", error=str(err)[:300])


def run_adjoint(name, p, mon, rng):
    """The terms of the continuous adjoint equation against their formula, and their product rule."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from diffrax._term import AdjointTerm

    class Path(dfx.AbstractPath):
        w: dict
        t0 = -9.0
        t1 = 9.0

        def evaluate(self, t0, t1=None, left=True):
            return jax.tree_util.tree_map(lambda x: x * (t0 if t1 is None else t1 - t0), self.w)

    class Field(eqx.Module):
        M: jax.Array
        K: jax.Array

        def __call__(self, t, y, args):
            return {"p": args["a"] * jnp.tanh(y["p"])[:, None] * self.M, "q": t * (jnp.sum(y["p"]) * y["q"])[:, None] * self.K}

    class ODEField(Field):
        def __call__(self, t, y, args):
            return {k: v[:, 0] for k, v in super().__call__(t, y, args).items()}

    for case in range(8):
        static = case % 4 == 3       # no parameters: the control is larger than the state
        ode = case % 4 == 2
        n, m = (1, 1) if static else (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        kp, kq = (1, 1) if ode else (6, 5) if static else (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        t = float(rng.uniform(-2, 2))
        P, Q, lp, lq = rng.normal(size=n), rng.normal(size=m), rng.normal(size=n), rng.normal(size=m)
        M, K, a = rng.normal(size=(n, kp)), rng.normal(size=(m, kq)), float(rng.normal())
        w = {"p": jnp.asarray(rng.normal(size=kp)), "q": jnp.asarray(rng.normal(size=kq))}
        field = (ODEField if ode else Field)(jnp.asarray(M), jnp.asarray(K))
        if static:
            fld = field
            term = dfx.ControlTerm(lambda t, y, args: fld(t, y, {"a": a}), Path(w))
            args = None
        else:
            term = dfx.ODETerm(field) if ode else dfx.ControlTerm(field, Path(w))
            args = {"a": jnp.asarray(a), "label": 3}
        adj = AdjointTerm(term)
        t0, t1 = sorted(rng.uniform(-2, 2, 2))
        control = adj.contr(t0, t1)
        _cmp(mon, control, term.contr(t0, t1), "adjoint term: same control")
        cp, cq = (np.array([float(control)]),) * 2 if ode else (np.asarray(control["p"]), np.asarray(control["q"]))
        mon.case(("adjoint", "static" if static else "ode" if ode else "control", n, m, kp, kq), t=t)
        zero = lambda tree: jax.tree_util.tree_map(jnp.zeros_like, eqx.filter(tree, eqx.is_inexact_array))
        y = ({"p": jnp.asarray(P), "q": jnp.asarray(Q)}, {"p": jnp.asarray(lp), "q": jnp.asarray(lq)}, zero(args), zero(term))
        dy, da, dargs, dterm = adj.vf_prod(t, y, args, control)
        Mc, Kc = M @ cp, K @ cq
        _cmp(mon, dy, {"p": a * np.tanh(P) * Mc, "q": t * P.sum() * Q * Kc}, "adjoint term: the state follows the original equation")
        _cmp(mon, da, {"p": -(a * (1 - np.tanh(P) ** 2) * Mc * lp + t * np.sum(lq * Q * Kc)), "q": -lq * t * P.sum() * Kc}, "adjoint term: minus the vector-Jacobian product with the adjoint state")
        if not static:
            mon.close(np.asarray(dargs["a"]), -np.sum(lp * np.tanh(P) * Mc), "adjoint term: derivative with respect to args", rtol=1e-11, atol=1e-12)
            mon.ok(dargs["label"] is None, "adjoint term: nothing for non-differentiable args")
            mon.close(np.asarray(dterm.vector_field.M), -(lp * a * np.tanh(P))[:, None] * cp, "adjoint term: derivative with respect to parameters", rtol=1e-11, atol=1e-12)
            mon.close(np.asarray(dterm.vector_field.K), -(lq * t * P.sum() * Q)[:, None] * cq, "adjoint term: derivative with respect to parameters (second)", rtol=1e-11, atol=1e-12)
        _cmp(mon, adj.prod(adj.vf(t, y, args), control), (dy, da, dargs, dterm), "adjoint term: vector field times control equals the combined product")
        c2 = jax.tree_util.tree_map(lambda x: 2.5 * x, control)
        _cmp(mon, adj.vf_prod(t, y, args, c2), jax.tree_util.tree_map(lambda x: 2.5 * x, (dy, da, dargs, dterm)), "adjoint term: linear in the control")
        mon.event("adjoint")
