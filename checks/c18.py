"""C18  approximate Bayesian computation: importance and Markov chain samplers."""
import jax
from jax import random
from .lib import *
from mocat.src.abc import importance as imp_mod
from mocat.src.abc.abc import ABCScenario
from mocat.src.abc.importance import ImportanceABC, VanillaABC
from mocat.src.abc.mcmc import RandomWalkABC, RMMetropolisDiagStepsize

P = 'C18'


def abc_scen(d, m, data):
    class S(ABCScenario):
        name, dim = 'abc', d

        def prior_potential(self, x, random_key=None):
            return uf('prior')(x)

        def prior_sample(self, random_key):
            return random.normal(random_key, (d,))

        def likelihood_sample(self, x, random_key):
            return uf('sim', (m,))(x, random.normal(random_key, (m,)))
    s = S()
    s.data = data
    return s


def sim(x, e, m):
    return uf('sim', (m,))(x, e)


def dist2(y, data):
    return jnp.sum((y - data) ** 2)


class plain_numbers:
    """float(...) and .item() of values that are symbolic here return the value itself."""
    def __enter__(self):
        from jax._src.core import Tracer
        self.T, self.item = Tracer, Tracer.__dict__.get('item')
        imp_mod.float = lambda v: v
        Tracer.item = lambda v: v

    def __exit__(self, *a):
        del imp_mod.float
        if self.item is None:
            del self.T.item
        else:
            self.T.item = self.item


def state_eq(T, tag, s, x, y, thr, data, lw, fields=('value', 'data', 'distance', 'prior', 'weight')):
    r = T.call('ref' + tag, lambda x, y, data: (dist2(y, data), uf('prior')(x)), x, y, data)
    if 'value' in fields:
        T.eq(tag + 'value', s.value, x)
    T.eq(tag + 'simulated data', s.simulated_data, y)
    T.eq(tag + 'distance', T.call('sq', lambda a: a * a, s.distance), r[0])
    T.eq(tag + 'prior', s.prior_potential, r[1])


for d, m in ((1, 2), (2, 1)):
    for kind in ('vanilla', 'importance'):
        @harness(P, f'{kind}_d{d}', about='every sample is an independent draw from the proposal with its own simulation; weight is prior over proposal inside the ball, zero outside')
        def _(T, d=d, m=m, kind=kind):
            thr, data, k = T.real('thr', pos=True), T.real('data', (m,)), T.key('k')

            class I(ImportanceABC):
                def importance_proposal(self, scenario, random_key):
                    return uf('shift', (d,))(random.normal(random_key, (d,)))

                def importance_potential(self, scenario, x):
                    return uf('imp')(x)

            def f(thr, data, k):
                S = VanillaABC(threshold=thr) if kind == 'vanilla' else I()
                S.parameters.threshold = thr
                scen = abc_scen(d, m, data)
                out = [S.startup(scen, 3, None, cdict(random_key=k))]
                for _ in range(2):
                    s, e = out[-1]
                    s, e = S.update(scen, s.copy(), e.copy())
                    out.append((s, e))
                return [o[0] for o in out], out[-1][1].random_key
            ss, nk = T.call('abc', f, thr, data, k)
            ds = T.draws('normal')
            T.true('two draws per sample', len(ds) == 6)
            T.independent('draws', ds)
            T.fresh('key', nk, ds)
            for i, s in enumerate(ss):
                z, e = ds[2 * i].array, ds[2 * i + 1].array
                x = T.call('x', (lambda z: z) if kind == 'vanilla' else (lambda z: uf('shift', (d,))(z)), z)
                y = T.call('y', lambda x, e: sim(x, e, m), x, e)
                state_eq(T, f'sample {i}: ', s, x, y, thr, data, None)

                def w(x, y, data, thr):
                    inside = dist2(y, data) < thr * thr
                    return jnp.where(inside, 1. if kind == 'vanilla' else jnp.exp(-uf('prior')(x) + uf('imp')(x)), 0.)
                T.eq(f'sample {i}: weight', T.call('ew', jnp.exp, s.log_weight), T.call('w', w, x, y, data, thr))


for n, rate in ((3, .5), (3, .25), (4, .4)):
    @harness(P, f'acceptance_rate_n{n}_{int(rate * 100)}', about='with an acceptance rate the threshold is that quantile of the distances; weights are one below it and zero from it on')
    def _(T, n=n, rate=rate):
        dist = T.real('dist', (n,), lo=0)
        for i in range(n - 1):
            T.assume(T.call('sorted', lambda v, i=i: v[i] < v[i + 1], dist))
        order = T.choice('order', 2)

        def f(dist, order):
            dist = jnp.where(order == 0, dist, jnp.roll(dist[::-1], 1))
            S = VanillaABC(acceptance_rate=rate)
            with plain_numbers():
                c = S.clean_chain(None, cdict(value=jnp.zeros((n, 1)), distance=dist, log_weight=jnp.zeros(n)))
            return S.parameters.threshold, c.log_weight, dist
        th, lw, dd = T.call('clean', f, dist, order)

        def ref(v):
            p = (n - 1) * rate
            i = int(p)
            return v[i] + (p - i) * (v[min(i + 1, n - 1)] - v[i])
        r = T.call('q', ref, dist)
        T.eq('threshold', th, r)
        T.eq('weights', T.call('e', jnp.exp, lw), T.call('w', lambda d, r: jnp.where(d < r, 1., 0.), dd, th))


for d, m in ((1, 2), (2, 1)):
    for vec in (False, True):
        @harness(P, f'random_walk_d{d}' + ('_vector' if vec else ''), about='Gaussian move and fresh simulation, accepted with the prior ratio inside the ball and never outside; all fields move together')
        def _(T, d=d, m=m, vec=vec):
            x, y0, data, h, thr, k = T.real('x', (d,)), T.real('y0', (m,)), T.real('data', (m,)), T.real('h', (d,) if vec else (), pos=True), T.real('thr', pos=True), T.key('k')

            def f(x, y0, data, h, thr, k):
                scen = abc_scen(d, m, data)
                S = RandomWalkABC(stepsize=h, threshold=thr)
                s, e = S.startup(scen, 3, cdict(value=x, simulated_data=y0), cdict(random_key=k))
                first = s.copy()
                s, e = S.update(scen, s, e)
                return first, s, e.random_key, e.iter
            s0, s, nk, it = T.call('abc', f, x, y0, data, h, thr, k)
            ds = T.draws()
            z, u = [q for q in ds if q.kind == 'normal'], [q for q in ds if q.kind == 'uniform']
            T.true('draws', len(z) == 2 and len(u) == 1)
            T.independent('draws', ds)
            T.fresh('key', nk, ds)
            state_eq(T, 'start: ', s0, x, y0, thr, data, None)

            def ref(x, y0, data, h, thr, z, e, u):
                x1 = x + jnp.sqrt(h) * z
                y1 = sim(x1, e, m)
                a = jnp.where(dist2(y1, data) < thr * thr, jnp.minimum(1., jnp.exp(uf('prior')(x) - uf('prior')(x1))), 0.)
                ok = u < a
                return jnp.where(ok, x1, x), jnp.where(ok, y1, y0), a
            v, y, a = T.call('ref', ref, x, y0, data, h, thr, z[0].array, z[1].array, u[0].array)
            state_eq(T, '', s, v, y, thr, data, None)
            T.eq('acceptance', s.alpha, a)
            T.eq('iteration', it, np.asarray(1))


@harness(P, 'adaptive', about='adaptive chain: log threshold moves towards the target acceptance, per-coordinate steps follow the running variance')
def _(T):
    d = 2
    al, thr, st, mean, cov, v, tg = T.real('al', lo=0, hi=1), T.real('thr', pos=True), T.real('st', (d,), pos=True), T.real('mean', (d,)), T.real('cov', (d,), pos=True), T.real('v', (d,)), T.real('tg', lo=0, hi=1)
    scale = T.real('scale', pos=True)

    def f(al, thr, st, mean, cov, v, tg, scale):
        S = RandomWalkABC(stepsize=.5, threshold=2.)
        S.tuning.target = tg
        C = RMMetropolisDiagStepsize(rm_stepsize_scale=scale)
        S.correction = C
        scen = abc_scen(d, 1, jnp.zeros(1))
        s0, e0 = S.startup(scen, 4, cdict(value=v), cdict(random_key=random.PRNGKey(0)))
        out0 = (e0.parameters.stepsize, e0.parameters.threshold, s0.threshold, e0.post_mean, e0.diag_post_cov)
        s = cdict(value=v, alpha=al, stepsize=st, threshold=thr)
        e = cdict(iter=4, parameters=cdict(threshold=thr, stepsize=st), post_mean=mean, diag_post_cov=cov)
        s, e = C.adapt(s, e)
        return out0, e.parameters.threshold, e.parameters.stepsize, s.stepsize, e.post_mean, e.diag_post_cov
    o, t1, s1, s1b, m1, c1 = T.call('adapt', f, al, thr, st, mean, cov, v, tg, scale)

    def ref(al, thr, mean, cov, v, tg, scale):
        g = scale * 4 ** (-2 / 3)
        w = jnp.minimum(g, 1 - 1e-3)
        c = (1 - w) * cov + w * (v - mean) ** 2
        return jnp.log(thr) - g * (al - tg), c / d * 2.38 ** 2, (1 - w) * mean + w * v, c
    t, s, m, c = T.call('ref', ref, al, thr, mean, cov, v, tg, scale)
    T.eq('log threshold', T.call('log', jnp.log, t1), t)
    T.eq('steps', s1, s)
    T.eq('recorded steps', s1b, s)
    T.eq('mean', m1, m)
    T.eq('variance', c1, c)
    T.eq('initial steps', o[0], np.full(d, .5))
    T.eq('initial thresholds', (o[1], o[2]), (np.asarray(2.), np.asarray(2.)))
    T.eq('initial mean', o[3], v)
    T.eq('initial variance', o[4], np.full(d, .5 * d / 2.38 ** 2))


@harness(P, 'adaptive_defaults', about='without step size and threshold the adaptive chain starts from one and fifty')
def _(T):
    d = 2
    v, k = T.real('v', (d,)), T.key('k')

    def f(v, k):
        S = RandomWalkABC()
        S.correction = RMMetropolisDiagStepsize()
        s, e = S.startup(abc_scen(d, 1, jnp.zeros(1)), 4, cdict(value=v), cdict(random_key=k))
        return e.parameters.stepsize, s.stepsize, e.parameters.threshold, s.threshold
    a, b, c, t = T.call('start', f, v, k)
    T.eq('steps', (a, b), (np.ones(d), np.ones(d)))
    T.eq('threshold', (c, t), (np.asarray(50.), np.asarray(50.)))


@harness(P, 'distance', about='the default distance is the Euclidean distance between simulated and observed data')
def _(T):
    y, data = T.real('y', (3,)), T.real('data', (3,))
    a = T.call('d', lambda y, data: abc_scen(1, 3, data).distance_function(y), y, data)
    T.eq('squared', T.call('sq', lambda a: a * a, a), T.call('r', lambda y, data: dist2(y, data), y, data))
    T.check('nonnegative', T.call('nn', lambda a: a >= 0, a))


@harness(P, 'run_vanilla', about='a rejection run for n samples returns n of them: independent prior draws, each with its own simulation and weight')
def _(T):
    from mocat.src.sample import run
    n, d, m = 3, 1, 1
    thr, data, k = T.real('thr', pos=True), T.real('data', (m,)), T.key('k')

    def f(thr, data, k):
        c = run(abc_scen(d, m, data), VanillaABC(threshold=thr), n, k)
        return c.value, c.simulated_data, c.distance, c.log_weight, c.prior_potential
    for _, g, (v, y, dist, lw, pr) in T.sliced('run', f, (thr, data, k), [n - 1], lambda r: r[0].shape[0] - 1):
        T.check('length', g, generic=False)
        ds = T.draws('normal')
        T.true('two draws per sample', len(ds) == 2 * n)
        T.independent('draws', ds)

        def ref(thr, data, ds):
            x, e = jnp.stack(ds[::2]), jnp.stack(ds[1::2])
            y = jnp.stack([sim(a, b, m) for a, b in zip(x, e)])
            r = jnp.stack([dist2(q, data) for q in y])
            return x, y, r, jnp.where(r < thr * thr, 1., 0.), jnp.stack([uf('prior')(a) for a in x])
        rv, ry, rd, rw, rp = T.call('ref', ref, thr, data, [q.array for q in ds])
        T.eq('value', v, rv)
        T.eq('simulated data', y, ry)
        T.eq('distance', T.call('sq', lambda a: a * a, dist), rd)
        T.eq('weight', T.call('e', jnp.exp, lw), rw)
        T.eq('prior', pr, rp)


@harness(P, 'run_acceptance_rate', about='with an acceptance rate a whole run keeps the samples whose distance is below that quantile of its own distances')
def _(T):
    from mocat.src.sample import run
    n, d, m, k = 3, 1, 1, T.key('k')

    def f(k):
        class S(ABCScenario):
            name, dim, data = 'abc', d, jnp.zeros(m)

            def prior_sample(self, random_key):
                return random.normal(random_key, (d,))

            def prior_potential(self, x, random_key=None):
                return uf('prior')(x)

            def likelihood_sample(self, x, random_key):
                return x

            def distance_function(self, y):
                return y[0]
        V = VanillaABC(acceptance_rate=.5)
        with plain_numbers():
            c = run(S(), V, n, k)
        return c.value, c.distance, c.log_weight, V.parameters.threshold
    for _, g, (v, dist, lw, th) in T.sliced('run', f, (k,), [n - 1], lambda r: r[0].shape[0] - 1):
        T.check('length', g, generic=False)
        T.eq('distance', dist, T.call('v0', lambda v: v[:, 0], v))
        mid = T.call('mid', lambda v: jnp.maximum(jnp.minimum(v[0, 0], v[1, 0]), jnp.minimum(jnp.maximum(v[0, 0], v[1, 0]), v[2, 0])), v)
        T.eq('threshold', th, mid)
        T.eq('weights', T.call('e', jnp.exp, lw), T.call('w', lambda d, q: jnp.where(d < q, 1., 0.), dist, mid))
