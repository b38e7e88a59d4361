"""C02  Random-walk Metropolis."""
from .lib import *
from mocat.src.mcmc.standard_mcmc import RandomWalk
from mocat.src.mcmc.metropolis import Metropolis

P = 'C02'


def step_fn(temp=None, d=2, **kw):
    def f(x, alpha, h, k, it, temp=1.):
        scen = uf_scenario(d, temp)
        s = RandomWalk(stepsize=h)
        st, ex = s.startup(scen, 10, cdict(value=x), cdict(random_key=k, iter=it))
        ex2 = cdict(random_key=ex.random_key, iter=ex.iter, parameters=cdict(stepsize=h))
        st = st.copy()
        st.alpha = alpha
        return st, s.update(scen, st, ex2)
    return f


def pot(x, temp):
    return uf('prior')(x) + temp * uf('lik')(x)


for D in (1, 2, 3, 6, 12):
    @harness(P, f'step_d{D}', tier='quick',
             about='one transition from an arbitrary state: Gaussian increment of variance stepsize, acceptance by '
                   'the target ratio, cached potential stays the potential of the value')
    def _(T, D=D):
        x, h, k = T.real('x', (D,)), T.real('h', pos=True), T.key('k')
        it, temp, alpha = T.real('iter', integer=True, lo=0), T.real('temp', lo=0), T.real('a', lo=0, hi=1)
        st, (ns, ne) = T.call('step', step_fn(d=D), x, alpha, h, k, it, temp)
        ds = T.draws()
        nrm, = [d for d in ds if d.kind == 'normal']
        uni, = [d for d in ds if d.kind == 'uniform']
        T.eq('startup potential', st.potential, T.call('p0', pot, x, temp))

        def ref(x, h, temp, z, u):
            y = x + z * h ** 0.5
            lr = pot(x, temp) - pot(y, temp)
            a = jnp.where(lr >= 0, 1., jnp.exp(lr))
            acc = u < a
            return jnp.where(acc, y, x), jnp.where(acc, pot(y, temp), pot(x, temp)), a
        v, p, a = T.call('ref', ref, x, h, temp, nrm.array, uni.array)
        T.eq('value', ns.value, v)
        T.eq('potential', ns.potential, p)
        T.eq('alpha', ns.alpha, a)
        T.eq('iter', ne.iter, T.call('it', lambda i: i + 1, it))
        T.eq('stepsize unchanged', ne.parameters.stepsize, h)
        T.true('one vector of normals, one uniform', len(ds) == 2 and nrm.shape == (D,) and uni.shape == ())
        T.independent('draws', ds)
        T.fresh('next key', ne.random_key, ds)


@harness(P, 'two_steps', about='two consecutive transitions: the second starts from the outcome of the first with fresh draws')
def _(T):
    x, h, k = T.real('x', (1,)), T.real('h', pos=True), T.key('k')
    temp = T.real('temp', lo=0)

    def f(x, h, k, temp):
        scen = uf_scenario(1, temp)
        s = RandomWalk(stepsize=h)
        st, ex = s.startup(scen, 10, cdict(value=x), cdict(random_key=k))
        a = s.update(scen, st.copy(), cdict(random_key=ex.random_key, iter=ex.iter, parameters=cdict(stepsize=h)))
        b = s.update(scen, a[0].copy(), cdict(random_key=a[1].random_key, iter=a[1].iter, parameters=cdict(stepsize=h)))
        return a, b
    (s1, e1), (s2, e2) = T.call('steps', f, x, h, k, temp)
    ds = T.draws()
    nz = [d for d in ds if d.kind == 'normal']
    us = [d for d in ds if d.kind == 'uniform']
    T.true('two normals and two uniforms', len(nz) == 2 and len(us) == 2)
    T.independent('draws', ds)
    T.fresh('next key', e2.random_key, ds)

    def one(x, h, temp, z, u):
        y = x + z * h ** 0.5
        lr = pot(x, temp) - pot(y, temp)
        a = jnp.where(lr >= 0, 1., jnp.exp(lr))
        return jnp.where(u < a, y, x), a
    v1, a1 = T.call('ref1', one, x, h, temp, nz[0].array, us[0].array)
    T.eq('value 1', s1.value, v1)
    # the second transition is judged from the state the first one produced
    v2, a2 = T.call('ref2', one, s1.value, h, temp, nz[1].array, us[1].array)
    T.eq('value 2', s2.value, v2)
    T.eq('alpha 2', s2.alpha, a2)
    T.eq('potential 2', s2.potential, T.call('p2', pot, s2.value, temp))
    T.eq('iter', e2.iter, T.call('it', lambda i: i + 2, jnp.asarray(0)))


@harness(P, 'pseudo_marginal', about='with a random potential, the potential of the current state is never redrawn')
def _(T):
    from jax import random

    class Noisy(Scenario):
        name = 'noisy'
        dim = 2

        def potential(self, x, random_key):
            return jnp.sum(x ** 2) * 0.5 + random.normal(random_key)
    x, h, k, p0 = T.real('x', (2,)), T.real('h', pos=True), T.key('k'), T.real('p0')

    def f(x, p0, h, k):
        scen = Noisy()
        s = RandomWalk(stepsize=h)
        st, ex = s.startup(scen, 10, cdict(value=x), cdict(random_key=k))
        st = st.copy()
        st.potential = p0
        return s.update(scen, st, cdict(random_key=ex.random_key, iter=0, parameters=cdict(stepsize=h)))
    ns, ne = T.call('step', f, x, p0, h, k)
    ds = T.draws()
    vec, = [d for d in ds if d.kind == 'normal' and d.shape == (2,)]
    uni, = [d for d in ds if d.kind == 'uniform']
    scal = [d for d in ds if d.kind == 'normal' and d.shape == ()]
    T.true('one potential evaluation at start and one per step', len(scal) == 2)
    T.independent('draws', ds)
    T.fresh('next key', ne.random_key, ds)

    def ref(x, p0, h, z, u, e):
        y = x + z * h ** 0.5
        py = jnp.sum(y * y) / 2 + e
        a = jnp.where(p0 >= py, 1., jnp.exp(p0 - py))
        return jnp.where(u < a, y, x), jnp.where(u < a, py, p0), a
    v, p, a = T.call('ref', ref, x, p0, h, vec.array, uni.array, scal[1].array)
    T.eq('value', ns.value, v)
    T.eq('potential', ns.potential, p)
    T.eq('alpha', ns.alpha, a)
