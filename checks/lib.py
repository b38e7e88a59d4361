"""Shared pieces of the harnesses: scenarios made of uninterpreted functions and small reference definitions."""
import numpy as np
import jax
import jax.numpy as jnp
from engine.harness import harness
from engine.prims import uf
from mocat.src.core import cdict, Scenario, static_cdict


def uf_scenario(dim=1, temperature=1., likelihood_only=False, prior_sample=None, special=False):
    """Scenario whose prior and likelihood potentials are arbitrary (uninterpreted) smooth functions of the position."""
    lik = uf('lik', (), special=special)
    pri = uf('prior', (), special=special)

    class UFScen(Scenario):
        name = 'uf'

        def prior_potential(self, x, random_key=None):
            return pri(x)

        def likelihood_potential(self, x, random_key=None):
            return lik(x)
    if prior_sample is not None:
        UFScen.prior_sample = lambda self, random_key: prior_sample(random_key)
    UFScen.dim = dim
    if dim == 1:
        # keep the arguments as the scenario receives them (no per-dimension wrapping)
        class UFScen1(UFScen):
            def __init__(self, **kw):
                type(self).dim = 2
                super().__init__(**kw)
                self.dim = 1
        s = UFScen1()
    else:
        s = UFScen()
    s.temperature = temperature
    return s


def potential_of(s):
    return uf('prior'), uf('lik')


def sq(x):
    return jnp.square(x)


def gauss0(m):
    """-log density of the standard normal."""
    return 0.5 * jnp.sum(m * m) + 0.5 * m.size * jnp.log(2 * jnp.pi)


L2P = float(np.log(2 * np.pi))


def tri(T, d, name='L'):
    """lower triangular with positive diagonal as a list of symbolic scalars -> matrix."""
    diag, off = T.real(name + 'd', (d,), pos=True), T.real(name + 'o', (d * (d - 1) // 2,)) if d > 1 else None

    def mk(diag, *off):
        M, k = jnp.diag(diag), 0
        for i in range(d):
            for j in range(i):
                M = M.at[i, j].set(off[0][k])
                k += 1
        return M
    return T.call('tri_' + name, mk, diag, *([off] if off is not None else []))
