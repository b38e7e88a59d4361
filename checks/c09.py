"""C09  targets: tempered potential, gradients and one-dimensional handling are one consistent function."""
import jax
from .lib import *

P = 'C09'


def user_scenario(kind, dim, **kw):
    lik, pri, pot = uf('lik', ()), uf('prior', ()), uf('pot', ())

    class S(Scenario):
        name = 'user'
    S.dim = dim
    v = (lambda g: (lambda self, x, random_key=None: jax.vmap(g)(x) if x.ndim > 1 else g(x))) if dim == 1 else (lambda g: (lambda self, x, random_key=None: g(x)))
    if kind in ('both', 'lik'):
        S.likelihood_potential = v(lik)
    if kind == 'both' or kind == 'prior+pot':
        S.prior_potential = v(pri)
    if kind in ('pot', 'prior+pot'):
        S.potential = v(pot)
    return S(**kw)


def parts(kind):
    z = lambda x: jnp.array(0.)
    return {'both': (uf('prior', ()), uf('lik', ())), 'lik': (z, uf('lik', ())), 'pot': (z, uf('pot', ())),
            'prior+pot': (uf('prior', ()), uf('pot', ()))}[kind]


for kind in ('both', 'lik', 'pot', 'prior+pot'):
    for dim in (1, 2, 3):
        @harness(P, f'tempered_{kind}_d{dim}', about='potential = prior + temperature * likelihood, with exact gradients, at the current and at any given temperature')
        def _(T, kind=kind, dim=dim):
            x, te, t2 = T.real('x', (dim,)), T.real('temp'), T.real('temp2')
            k = jnp.zeros(2, dtype=jnp.uint32)

            def f(x, te, t2):
                s = user_scenario(kind, dim)
                default = s.potential(x, k)
                s.temperature = te
                a = (s.potential(x, k), s.grad_potential(x, k), *s.potential_and_grad(x, k))
                b = (s.tempered_potential(x, t2, k), s.grad_tempered_potential(x, t2, k), *s.tempered_potential_and_grad(x, t2, k))
                c = (s.prior_potential(x, k), s.grad_prior_potential(x, k), *s.prior_potential_and_grad(x, k))
                d = (s.likelihood_potential(x, k), s.grad_likelihood_potential(x, k), *s.likelihood_potential_and_grad(x, k))
                return default, a, b, c, d

            def ref(x, te, t2):
                p, l = parts(kind)
                def four(g):
                    v, gr = g(x), jax.grad(g)(x)
                    return v, gr, v, gr
                return p(x) + l(x), four(lambda x: p(x) + te * l(x)), four(lambda x: p(x) + t2 * l(x)), four(p), four(l)
            o, r = T.call('scenario', f, x, te, t2), T.call('ref', ref, x, te, t2)
            T.eq('default temperature is one', o[0], r[0])
            for i, n in enumerate(('potential', 'tempered potential', 'prior', 'likelihood')):
                for j, m in enumerate(('value', 'gradient', 'value with gradient', 'gradient with value')):
                    T.eq(f'{n}: {m}', o[i + 1][j], r[i + 1][j])


@harness(P, 'noisy', about='the random key given to the target reaches prior and likelihood, in value and gradient')
def _(T):
    x, te, t2, k = T.real('x', (2,)), T.real('temp'), T.real('temp2'), T.key('k')

    class S(Scenario):
        name = 'noisy'
        dim = 2

        def prior_potential(self, x, random_key=None):
            return uf('prior', ())(x) * jax.random.normal(random_key)

        def likelihood_potential(self, x, random_key=None):
            return uf('lik', ())(x) + jax.random.normal(random_key) * x[0]

    def f(x, te, t2, k):
        s = S(temperature=te)
        s.temperature = te
        return s.potential(x, k), s.grad_potential(x, k), *s.potential_and_grad(x, k), s.tempered_potential(x, t2, k), \
            s.grad_tempered_potential(x, t2, k), *s.tempered_potential_and_grad(x, t2, k)

    def ref(x, te, t2, k):
        z = jax.random.normal(k)
        g = lambda x, te: uf('prior', ())(x) * z + te * (uf('lik', ())(x) + z * x[0])
        a = g(x, te), jax.grad(g)(x, te)
        b = g(x, t2), jax.grad(g)(x, t2)
        return a + a + b + b
    T.eq('noisy target', T.call('scenario', f, x, te, t2, k), T.call('ref', ref, x, te, t2, k))


for dim in (1, 2):
    @harness(P, f'replaced_d{dim}', about='replacing prior or likelihood later updates potential and every gradient')
    def _(T, dim=dim):
        x, te = T.real('x', (dim,)), T.real('temp')
        k = jnp.zeros(2, dtype=jnp.uint32)

        def f(x, te):
            s = user_scenario('both', dim)
            s.temperature = te
            s.likelihood_potential = lambda x, random_key=None: uf('newlik', ())(x)
            a = s.potential(x, k), s.grad_potential(x, k), *s.potential_and_grad(x, k), s.grad_likelihood_potential(x, k)
            s.prior_potential = lambda x, random_key=None: uf('newprior', ())(x)
            b = s.potential(x, k), s.grad_potential(x, k), *s.potential_and_grad(x, k), s.grad_prior_potential(x, k)
            return a, b

        def ref(x, te):
            g = lambda x: uf('prior', ())(x) + te * uf('newlik', ())(x)
            h = lambda x: uf('newprior', ())(x) + te * uf('newlik', ())(x)
            a, b = jax.value_and_grad(g)(x), jax.value_and_grad(h)(x)
            return a + a + (jax.grad(uf('newlik', ()))(x),), b + b + (jax.grad(uf('newprior', ()))(x),)
        T.eq('after replacement', T.call('scenario', f, x, te), T.call('ref', ref, x, te))


for kind in ('both', 'lik', 'pot', 'prior+pot'):
    @harness(P, 'one_dimensional' + ('' if kind == 'both' else '_' + kind), about='in one dimension scalars, length-one vectors and columns of points mean the same points')
    def _(T, kind=kind):
        x, y = T.real('x'), T.real('y', (3,))
        k = jnp.zeros(2, dtype=jnp.uint32)

        def f(x, y):
            s = user_scenario(kind, 1)
            s.temperature = 2.
            return s.potential(x, k), s.potential(x[None], k), s.potential(x[None, None], k), s.grad_potential(x, k), s.potential(y, k), \
                s.potential(y[:, None], k), jax.vmap(lambda v: s.potential(v, k))(y), jax.vmap(lambda v: s.grad_potential(v, k))(y)

        def ref(x, y):
            g = lambda v: parts(kind)[0](v[None]) + 2 * parts(kind)[1](v[None])
            col = jnp.stack([g(v) for v in y])
            return g(x), g(x), g(x), jax.grad(g)(x), col, col, col, jnp.stack([jax.grad(g)(v) for v in y])
        o, r = T.call('scenario', f, x, y), T.call('ref', ref, x, y)
        for n, a, b in zip(('scalar', 'vector', 'matrix', 'gradient', 'points', 'column', 'mapped', 'mapped gradient'), o, r):
            T.eq(n, a, b)


@harness(P, 'keyword_temperature', about='a temperature already defined for the scenario can be set at construction')
def _(T):
    x, te = T.real('x', (2,)), T.real('temp')

    class S(Scenario):
        name, dim, temperature = 's', 2, .5

        def prior_potential(self, x, random_key=None):
            return uf('prior', ())(x)

        def likelihood_potential(self, x, random_key=None):
            return uf('lik', ())(x)
    o = T.call('scenario', lambda x, te: (S().potential(x), S(temperature=te).potential(x), S(temperature=te).grad_potential(x)), x, te)
    p, l = uf('prior', ()), uf('lik', ())
    T.eq('potential', o, T.call('ref', lambda x, te: (p(x) + .5 * l(x), p(x) + te * l(x), jax.grad(lambda x: p(x) + te * l(x))(x)), x, te))
