"""C07  run loop and chain assembly."""
import jax
from .lib import *
from mocat.src import utils
from mocat.src.sample import run, Sampler
from mocat.src.mcmc.standard_mcmc import RandomWalk
from mocat.src.mcmc.sampler import MCMCSampler
from mocat.src.transport.sampler import TransportSampler

P = 'C07'


def where_rows(g, a, b):
    return jnp.where(g, a, b)


for MX, tier in [(1, 'quick'), (3, 'quick'), (5, 'quick'), (9, 'quick'), (25, 'quick')]:
    @harness(P, f'while_stacked_{MX}', tier=tier, about='iterates until the first state failing the condition (or the maximum), stacking every state in order')
    def _(T, MX=MX):
        x, e = T.real('x', (2,)), T.real('e')
        body, cnd, ex = uf('body', (2,)), uf('cond'), uf('extra')

        def f(x, e):
            return utils.while_loop_stacked(lambda s, z: cnd(s.value, z.e) > 0,
                                            lambda s, z: (cdict(value=body(s.value, z.e), tag=z.e), cdict(e=ex(s.value, z.e))),
                                            (cdict(value=x, tag=e), cdict(e=e)), MX)

        def ref(x, e):
            live, n = jnp.array(True), 0
            xs, tags = [], []
            for _ in range(MX):
                live = live & (cnd(x, e) > 0)
                n = n + jnp.where(live, 1, 0)
                x, tag, e = body(x, e), e, ex(x, e)
                xs.append(x)
                tags.append(tag)
            return n, jnp.stack(xs), jnp.stack(tags)
        n, xs, tags = T.call('ref', ref, x, e)
        for k, g, out in T.sliced('loop', f, (x, e), range(MX + 1), lambda r: r.value.shape[0]):
            T.check(f'length {k}', T.call('len', lambda g, n: ~g | (n == k), g, n), generic=False)
            T.true(f'rows {k}', out.value.shape == (k, 2) and out.tag.shape == (k,))
            T.eq(f'states {k}', *T.call('cmp', lambda g, a, b: (jnp.where(g, a, 0.), jnp.where(g, b[:k], 0.)), g, out.value, xs))
            T.eq(f'tags {k}', *T.call('cmp2', lambda g, a, b: (jnp.where(g, a, 0.), jnp.where(g, b[:k], 0.)), g, out.tag, tags))


@harness(P, 'while_stacked_tuple', about='the same loop with tuple states')
def _(T):
    MX = 3
    x = T.real('x')
    body, cnd = uf('body'), uf('cond')

    def f(x):
        return utils.while_loop_stacked(lambda s, z: cnd(s[0]) > 0, lambda s, z: ((body(s[0]), s[1] + 1), z + 1), ((x, 0), 0), MX)
    for k, g, out in T.sliced('loop', f, (x,), range(MX + 1), lambda r: r[0].shape[0]):
        def ref(x):
            live, n, xs = jnp.array(True), 0, []
            for _ in range(MX):
                live = live & (cnd(x) > 0)
                n = n + jnp.where(live, 1, 0)
                x = body(x)
                xs.append(x)
            return n, jnp.stack(xs)
        n, xs = T.call(f'ref{k}', ref, x)
        T.check(f'length {k}', T.call(f'len{k}', lambda g, n: ~g | (n == k), g, n), generic=False)
        T.eq(f'states {k}', *T.call('cmp', lambda g, a, b: (jnp.where(g, a, 0.), jnp.where(g, b[:k], 0.)), g, out[0], xs))
        T.eq(f'counter {k}', *T.call('cmp2', lambda g, a: (jnp.where(g, a, 0), jnp.where(g, jnp.arange(1, k + 1), 0)), g, out[1]))


class Walk(MCMCSampler):
    """deterministic sampler with an arbitrary transition."""
    name = 'walk'

    def proposal(self, scenario, s, e):
        p = s.copy()
        p.value = uf('move', (2,))(s.value)
        return p, e


for N in (2, 4, 7, 30, 101):
    @harness(P, f'run_mcmc_{N}', about='a run of n returns n states: the initial one followed by each transition of the previous one')
    def _(T, N=N):
        x, k = T.real('x', (2,)), T.key('k')

        def f(x, k):
            c = run(uf_scenario(2, 1.), Walk(), N, k, initial_state=cdict(value=x, mark=x[0]))
            return c.value, c.mark
        got = False
        for kk, g, (v, m) in T.sliced('run', f, (x, k), [N - 1], lambda r: r[0].shape[0] - 1):
            T.check('length', g, generic=False)
            T.true('rows', v.shape == (N, 2))

            def ref(x):
                xs = [x]
                for _ in range(N - 1):
                    xs.append(uf('move', (2,))(xs[-1]))
                return jnp.stack(xs)
            T.eq('chain', v, T.call('ref', ref, x))
            T.eq('carried fields', m, T.call('m', lambda x: jnp.full(N, x[0]), x))


@harness(P, 'given_key', about='the key given to a run is the one it uses, also when the extra settings hold another one; without one, theirs is used')
def _(T):
    x, k, ke = T.real('x', (2,)), T.key('k'), T.key('ke')

    def f(x, k, ke):
        def go(key, extra):
            c = run(uf_scenario(2, 1.), RandomWalk(stepsize=.5), 3, key, initial_state=cdict(value=x), initial_extra=extra)
            return c.value, c.alpha
        return go(k, None), go(k, cdict(random_key=ke)), go(None, cdict(random_key=k))
    for _, g, (a, b, c) in T.sliced('run', f, (x, k, ke), [2], lambda r: r[0][0].shape[0] - 1):
        T.assume(g)
        for i, q in enumerate(('value', 'alpha')):
            T.eq(f'given beside another: {q}', b[i], a[i])
            T.eq(f'only in the extra settings: {q}', c[i], a[i])


@harness(P, 'run_random_walk', about='whole random-walk run: recorded states, potentials and acceptance values follow the accept/reject recursion', cost=5)
def _(T):
    N = 3
    x, k, h, temp = T.real('x', (1,)), T.key('k'), T.real('h', pos=True), T.real('temp', lo=0)

    def f(x, k, h, temp):
        c = run(uf_scenario(1, temp), RandomWalk(stepsize=.1), N, k, initial_state=cdict(value=x), stepsize=h)
        return c.value, c.potential, c.alpha
    for kk, g, (v, p, a) in T.sliced('run', f, (x, k, h, temp), [N - 1], lambda r: r[0].shape[0] - 1):
        T.check('length', g, generic=False)
        ds = T.draws()
        nz, us = [d for d in ds if d.kind == 'normal'], [d for d in ds if d.kind == 'uniform']
        T.true('draws', len(nz) == N - 1 and len(us) == N - 1)
        T.independent('draws', ds)
        T.eq('initial value', T.call('0', lambda v: v[0], v), x)
        T.eq('initial alpha', T.call('a0', lambda a: a[0], a), jnp.asarray(1.))
        pot = lambda x, temp: uf('prior')(x) + temp * uf('lik')(x)
        for i in range(N - 1):
            def one(v, p, h, temp, z, u, i=i):
                x = v[i]
                y = x + z * jnp.sqrt(h)
                lr = pot(x, temp) - pot(y, temp)
                al = jnp.where(lr >= 0, 1., jnp.exp(lr))
                return jnp.where(u < al, y, x), al, v[i + 1]
            r, al, w = T.call(f'ref{i}', one, v, p, h, temp, nz[i].array, us[i].array)
            T.eq(f'value {i + 1}', w, r)
            T.eq(f'alpha {i + 1}', T.call('al', lambda a: a[i + 1], a), al)
        T.eq('potentials', p, T.call('pots', lambda v, t: jnp.stack([pot(v[j], t) for j in range(N)]), v, temp))


@harness(P, 'run_default_start', about='without an initial state a run starts from the prior sampler, else from zero')
def _(T):
    k = T.key('k')

    def f(k):
        from jax import random
        c = run(uf_scenario(2, 1., prior_sample=lambda key: 3. * random.normal(key, (2,))), Walk(), 2, k)
        d = run(uf_scenario(2, 1.), Walk(), 2, k)
        return c.value, d.value
    for kk, g, (v, w) in T.sliced('run', f, (k,), [1], lambda r: r[0].shape[0] - 1):
        z, = T.draws()
        T.eq('prior start', T.call('0', lambda v: v[0], v), T.call('3z', lambda z: 3. * z, z.array))
        T.eq('zero start', T.call('0', lambda v: v[0], w), jnp.zeros(2))
        T.eq('next', T.call('1', lambda v: v[1], v), T.call('mv', lambda z: uf('move', (2,))(3. * z), z.array))


class Ens(TransportSampler):
    name = 'ens'

    def update(self, scenario, s, e):
        e.iter = e.iter + 1
        s.value = jax.vmap(uf('emove', (1,)))(s.value)
        return s, e

    def termination_criterion(self, s, e):
        return (uf('stop')(s.value) > 0) | (e.iter >= self.max_iter)


@harness(P, 'run_ensemble', about='a transport run stops at the first state meeting its criterion and returns every visited ensemble')
def _(T):
    x, k, MX = T.real('x', (2, 1)), T.key('k'), 3

    def f(x, k):
        return run(uf_scenario(1, 1.), Ens(max_iter=MX), 2, k, initial_state=cdict(value=x)).value

    def ref(x):
        live, n, xs = jnp.array(True), 0, [x]
        for _ in range(MX):
            live = live & ~(uf('stop')(xs[-1]) > 0)
            n = n + jnp.where(live, 1, 0)
            xs.append(jax.vmap(uf('emove', (1,)))(xs[-1]))
        return n, jnp.stack(xs)
    n, xs = T.call('ref', ref, x)
    for kk, g, v in T.sliced('run', f, (x, k), range(MX + 1), lambda r: r.shape[0] - 1):
        T.check(f'length {kk}', T.call('len', lambda g, n: ~g | (n == kk), g, n), generic=False)
        T.true(f'rows {kk}', v.shape == (kk + 1, 2, 1))
        T.eq(f'states {kk}', *T.call('cmp', lambda g, a, b: (jnp.where(g, a, 0.), jnp.where(g, b[:kk + 1], 0.)), g, v, xs))


for how in ('prior', 'no_prior'):
    @harness(P, f'run_ensemble_start_{how}', about='without an initial state an ensemble starts from independent prior draws, without a prior sampler from standard normals')
    def _(T, how=how):
        n, d, k = 3, 2, T.key('k')

        def f(k):
            from jax import random
            s = uf_scenario(d, 1., prior_sample=(lambda key: uf('draw', (d,))(random.normal(key, (d,)))) if how == 'prior' else None)
            E = Ens(max_iter=1)
            s0, e = E.startup(s, n, None, cdict(random_key=k))
            return s0.value, e.random_key, e.iter, run(s, Plain(max_iter=1), n, k).value
        for _, g, (v, nk, it, w) in T.sliced('run', f, (k,), [1], lambda r: r[3].shape[0] - 1):
            ds = T.draws('normal')
            T.independent('draws', ds[:n] if how == 'prior' else ds[:1])
            T.fresh('key', nk, ds)
            z = T.call('z', lambda *q: jnp.stack(q) if how == 'prior' else q[0], *[q.array for q in (ds[:n] if how == 'prior' else ds[:1])])
            r = T.call('ref', lambda z: jnp.stack([uf('draw', (d,))(v) for v in z]) if how == 'prior' else z, z)
            T.eq('start', v, r)
            T.eq('iteration', it, np.asarray(0))
            T.eq('first recorded ensemble', T.call('0', lambda w: w[0], w), r)
            T.eq('next', T.call('1', lambda w: w[1], w), T.call('mv', lambda r: r + 1., r))


class Plain(TransportSampler):
    name = 'plain'

    def update(self, scenario, s, e):
        e.iter = e.iter + 1
        s.value = s.value + 1.
        return s, e
