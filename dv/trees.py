"""Rooted trees (optionally with coloured nodes) and the ODE system whose k-th component has
exact solution t^|tau| / gamma(tau): one Runge-Kutta step on it returns the method's
elementary weights, so that the order conditions can be read off a real step."""
from itertools import combinations_with_replacement

import numpy as np


def rooted_trees(p, colours=1):
    """All trees with at most p nodes; a tree is (colour, tuple(sorted children indices))."""
    trees, order, gamma, index = [], [], [], {}
    by_order = {}
    for n in range(1, p + 1):
        by_order[n] = []
        forests = _forests(n - 1, by_order, order)
        for f in forests:
            for c in range(colours):
                key = (c, f)
                index[key] = len(trees)
                trees.append(key)
                order.append(n)
                gamma.append(n * int(np.prod([gamma[i] for i in f], dtype=object)) if f else n)
                by_order[n].append(index[key])
    return trees, np.array(order), np.array([float(g) for g in gamma])


def _forests(n, by_order, order):
    """Multisets of known trees with n nodes in total."""
    if n == 0:
        return [()]
    out = set()

    def rec(rest, maxidx, cur):
        if rest == 0:
            out.add(tuple(sorted(cur)))
            return
        for k in range(1, rest + 1):
            for i in by_order.get(k, []):
                if i <= maxidx:
                    rec(rest - k, i, cur + [i])

    rec(n, 10 ** 9, [])
    return sorted(out)


def tree_system(p, colours=1, timed=False):
    """Returns (f_by_colour, order, gamma). f(t, y, t0): vector field of that colour.

    timed: single-node children are replaced by explicit time."""
    import jax.numpy as jnp

    trees, order, gamma = rooted_trees(p, colours)
    n = len(trees)
    w = max(len(f) for _, f in trees)
    w = max(w, 1)
    idx = np.full((n, w), n)
    for i, (c, f) in enumerate(trees):
        for k, ch in enumerate(f):
            idx[i, k] = n + 1 if (timed and order[ch] == 1) else ch
    col = np.array([c for c, _ in trees])

    def make(c):
        mask = np.where(col == c, 1.0, 0.0)

        def f(t, y, t0):
            ext = jnp.concatenate([y, jnp.array([1.0]), jnp.asarray(t - t0)[None]])
            return jnp.prod(ext[idx], axis=1) * mask

        return f

    return [make(c) for c in range(colours)], order, gamma
