"""A tabulated Brownian path: a user-written AbstractBrownianPath, independent of the library's own
paths, with exact W and space-time(-time) Levy areas over any interval whose ends lie on its grid."""
from typing import Any

import diffrax as dfx
import equinox as eqx
import jax.numpy as jnp
import numpy as np


def table(rng, cells, a, b, M):
    """Cumulative [W, int W, int (r-a) W] on a grid of `cells` cells of [a, b]; numpy (3, cells+1, M)."""
    d = (b - a) / cells
    W = rng.normal(size=(cells, M)) * np.sqrt(d)
    H = rng.normal(size=(cells, M)) * np.sqrt(d / 12)
    K = rng.normal(size=(cells, M)) * np.sqrt(d / 720)
    Ws = np.concatenate([np.zeros((1, M)), np.cumsum(W, 0)])
    s = np.arange(cells)[:, None] * d
    i1 = d * (H + W / 2)                                     # int W_{s,r} dr
    i2 = (d * d * H / 2 - d * d * K) + W * d * d / 3         # int (r-s) W_{s,r} dr
    j1 = Ws[:-1] * d + i1
    j2 = Ws[:-1] * (s * d + d * d / 2) + s * i1 + i2
    z = np.zeros((1, M))
    return np.stack([Ws, np.concatenate([z, np.cumsum(j1, 0)]), np.concatenate([z, np.cumsum(j2, 0)])])


def whk(xp, tab, a, d, i, j):
    """W, H, K over [a+i*d, a+j*d] (i < j) from the table."""
    s, t = i * d, j * d
    h = t - s
    W = tab[0, j] - tab[0, i]
    hh = xp.where(h == 0, 1.0, h)
    I1 = tab[1, j] - tab[1, i] - h * tab[0, i]
    I2 = tab[2, j] - tab[2, i] - tab[0, i] * (t * t - s * s) / 2
    H = I1 / hh - W / 2
    K = ((s + t) / 2 * I1 - I2) / (hh * hh) + W / 12
    return W, H, K


class TabPath(dfx.AbstractBrownianPath):
    tab: Any
    a: Any
    d: Any
    struct: Any = eqx.field(static=True)     # flat (M,) -> user's control PyTree
    levy_area: Any = eqx.field(static=True)

    @property
    def t0(self):
        return None

    @property
    def t1(self):
        return None

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        i = jnp.round((t0 - self.a) / self.d).astype(int)
        if t1 is None:
            return self.struct(self.tab[0, i])
        j = jnp.round((t1 - self.a) / self.d).astype(int)
        W, H, K = whk(jnp, self.tab, self.a, self.d, i, j)
        W, H, K = self.struct(W), self.struct(H), self.struct(K)
        if not use_levy:
            return W
        dt = (j - i) * self.d
        import jax.tree_util as jtu
        dt = jtu.tree_map(lambda _: dt, W)
        if self.levy_area is dfx.BrownianIncrement:
            return dfx.BrownianIncrement(dt=dt, W=W)
        if self.levy_area is dfx.SpaceTimeLevyArea:
            return dfx.SpaceTimeLevyArea(dt=dt, W=W, H=H)
        return dfx.SpaceTimeTimeLevyArea(dt=dt, W=W, H=H, K=K)


def signed_whk(tab, a, d, i, j):
    """Increments along the direction of travel from grid point i to j (either order)."""
    if j >= i:
        return whk(np, tab, a, d, i, j)
    W, H, K = whk(np, tab, a, d, j, i)
    return -W, H, -K
