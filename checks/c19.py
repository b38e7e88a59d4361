"""C19  state-space models: joint potential of a path, its gradient, and simulation from the model."""
import jax
from jax import random
from .lib import *
from mocat.src.ssm.ssm import StateSpaceModel

P = 'C19'


def model(d, do, noisy=False):
    class S(StateSpaceModel):
        name, dim, dim_obs = 'uf', d, do

        def initial_potential(self, x, t):
            return uf('init')(x, t)

        def transition_potential(self, x0, t0, x1, t1):
            return uf('trans')(x0, t0, x1, t1)

        def likelihood_potential(self, x, y, t):
            return uf('lik')(x, y, t)

        def initial_sample(self, t, random_key):
            return uf('x0', (d,))(t, random.normal(random_key, (d,)))

        def transition_sample(self, x, t0, t1, random_key):
            return uf('x1', (d,))(x, t0, t1, random.normal(random_key, (d,)))

        def likelihood_sample(self, x, t, random_key):
            return uf('y', (do,))(x, t, random.normal(random_key, (do,)))
    return S()


def joint(x, y, t):
    out = uf('init')(x[0], t[0])
    for i in range(len(t)):
        out = out + uf('lik')(x[i], y[i], t[i])
        if i:
            out = out + uf('trans')(x[i - 1], t[i - 1], x[i], t[i])
    return out


for n, d, do in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 1, 2), (3, 2, 1), (4, 1, 1), (4, 2, 2), (6, 1, 1), (9, 1, 1)):
    @harness(P, f'joint_T{n}_d{d}', about='the smoothing potential of a path is the sum of initial, transition and likelihood potentials over all of its times')
    def _(T, n=n, d=d, do=do):
        x, y, t = T.real('x', (n, d)), T.real('y', (n, do)), T.real('t', (n,))
        a = T.call('code', lambda x, y, t: model(d, do).smoothing_potential(x, y, t), x, y, t)
        r = T.call('ref', joint, x, y, t)
        T.eq('value', T.call('flat', lambda a: jnp.reshape(a, ()), a), r)

    @harness(P, f'gradient_T{n}_d{d}', about='the gradient of the smoothing potential is the gradient of that sum, one row per time')
    def _(T, n=n, d=d, do=do):
        x, y, t = T.real('x', (n, d)), T.real('y', (n, do)), T.real('t', (n,))
        a = T.call('code', lambda x, y, t: model(d, do).grad_smoothing_potential(x, y, t), x, y, t)
        T.eq('gradient', a, T.call('ref', jax.grad(joint), x, y, t))


@harness(P, 'parts', about='each value-and-gradient pair belongs to its own potential; the transition gradient has one entry per end')
def _(T):
    d = 2
    x, z, y, t, s = T.real('x', (d,)), T.real('z', (d,)), T.real('y', (1,)), T.real('t'), T.real('s')

    def f(x, z, y, t, s):
        m = model(d, 1)
        return m.grad_initial_potential(x, t), m.initial_potential_and_grad(x, t), m.grad_transition_potential(x, t, z, s), \
            m.transition_potential_and_grad(x, t, z, s), m.grad_likelihood_potential(x, y, t)

    def ref(x, z, y, t, s):
        ini, tra, lik = uf('init'), uf('trans'), uf('lik')
        gi, gt = jax.grad(ini)(x, t), (jax.grad(tra)(x, t, z, s), jax.grad(tra, 2)(x, t, z, s))
        return gi, (ini(x, t), gi), gt, (tra(x, t, z, s), gt), jax.grad(lik)(x, y, t)
    for nm, a, b in zip(('initial gradient', 'initial', 'transition gradient', 'transition', 'likelihood gradient'), T.call('code', f, x, z, y, t, s),
                        T.call('ref', ref, x, z, y, t, s)):
        T.eq(nm, a, b)


@harness(P, 'likelihood_pair', about='the value-and-gradient pair of the likelihood belongs to the likelihood')
def _(T):
    d = 2
    x, y, t = T.real('x', (d,)), T.real('y', (1,)), T.real('t')
    T.eq('pair', T.call('code', lambda x, y, t: model(d, 1).likelihood_potential_and_grad(x, y, t), x, y, t),
         T.call('ref', lambda x, y, t: jax.value_and_grad(uf('lik'))(x, y, t), x, y, t))


for n, d in ((1, 1), (2, 2), (3, 1), (5, 1), (8, 2)):
    @harness(P, f'simulate_T{n}_d{d}', about='simulation chains initial, transition and observation draws along the given times, each from its own key')
    def _(T, n=n, d=d):
        t, k = T.real('t', (n,)), T.key('k')
        s = T.call('code', lambda t, k: (lambda s: dict(x=s.x, y=s.y, t=s.t))(model(d, 2).simulate(t, k)), t, k)
        ds = T.draws()
        T.true('one draw per state and observation', len(ds) == 2 * n)
        T.independent('draws', ds)
        ex, ey = [q.array for q in ds if q.array.shape == (d,)], [q.array for q in ds if q.array.shape == (2,)] if d != 2 else None
        if d == 2:
            ex, ey = [q.array for q in ds[:n]], [q.array for q in ds[n:]]

        def ref(t, ex, ey):
            xs = [uf('x0', (d,))(t[0], ex[0])]
            for i in range(1, n):
                xs.append(uf('x1', (d,))(xs[-1], t[i - 1], t[i], ex[i]))
            return jnp.stack(xs), jnp.stack([uf('y', (2,))(xs[i], t[i], ey[i]) for i in range(n)])
        xs, ys = T.call('ref', ref, t, ex, ey)
        T.eq('states', s['x'], xs)
        T.eq('observations', s['y'], ys)
        T.eq('times', s['t'], t)


@harness(P, 'overrides', about='a gradient given by the model itself is used in the path gradient')
def _(T):
    x, y, t = T.real('x', (3, 1)), T.real('y', (3, 1)), T.real('t', (3,))

    def f(x, y, t):
        base = type(model(1, 1))

        class S(base):
            def grad_likelihood_potential(self, x, y, t):
                return uf('glik', (1,))(x, y, t)
        return S().grad_smoothing_potential(x, y, t)

    def ref(x, y, t):
        ini, tra = uf('init'), uf('trans')
        out = [jax.grad(ini)(x[0], t[0])] + [jnp.zeros(1), jnp.zeros(1)]
        for i in range(3):
            out[i] = out[i] + uf('glik', (1,))(x[i], y[i], t[i])
            if i:
                out[i - 1] = out[i - 1] + jax.grad(tra)(x[i - 1], t[i - 1], x[i], t[i])
                out[i] = out[i] + jax.grad(tra, 2)(x[i - 1], t[i - 1], x[i], t[i])
        return jnp.stack(out)
    T.eq('gradient', T.call('code', f, x, y, t), T.call('ref', ref, x, y, t))
