"""C14  Stein methods: SVGD follows the kernelised Stein direction; the kernel Stein discrepancy is the documented double sum."""
import jax
from jax import random
from jax.example_libraries import optimizers
from .lib import *
from mocat.src import kernels, metrics
from mocat.src.transport.svgd import SVGD

P = 'C14'


def any_kernel(d, h=None):
    """arbitrary kernel: value, gradients and mixed derivatives are unrelated uninterpreted functions of (x, y, bandwidth)."""
    class K(kernels.Kernel):
        def _call(self, x, y, bandwidth):
            return uf('k')(x, y, bandwidth)

        def _grad_x(self, x, y, bandwidth):
            return uf('kx', (d,))(x, y, bandwidth)

        def _grad_y(self, x, y, bandwidth):
            return uf('ky', (d,))(x, y, bandwidth)

        def _diag_grad_xy(self, x, y, bandwidth):
            return uf('kxy', (d,))(x, y, bandwidth)
    return K(bandwidth=h)


def tgrad(x, temp):
    return uf('prior').grad(x) + temp * uf('lik').grad(x) if hasattr(uf('prior'), 'grad') else \
        jax.grad(lambda x: uf('prior')(x) + temp * uf('lik')(x))(x)


def tpot(x, temp):
    return uf('prior')(x) + temp * uf('lik')(x)


def start(s, scen, x, k, **kw):
    e = cdict(random_key=k)
    return s.startup(scen, x.shape[0], cdict(value=x), e, **kw)


for n, d in ((2, 1), (2, 2), (3, 1), (4, 2)):
    @harness(P, f'direction_n{n}_d{d}', about='one step moves every particle along the mean of -k(x_j,x_i) grad U(x_j) + grad_1 k(x_j,x_i), caches belong to the new positions')
    def _(T, n=n, d=d):
        x, temp, h, st, k = T.real('x', (n, d)), T.real('temp', lo=0), T.real('h', pos=True), T.real('step', pos=True), T.key('k')

        def f(x, temp, h, st, k):
            s = SVGD(st, kernel=any_kernel(d, h), optimiser=optimizers.sgd)
            scen = uf_scenario(d, temp)
            a, e = start(s, scen, x, k)
            first = (a.value, a.potential, a.grad_potential, e.iter)
            b, e = s.update(scen, a, e)
            return first, (b.value, b.potential, b.grad_potential), e.iter
        o, q, it = T.call('svgd', f, x, temp, h, st, k)

        def ref(x, temp, h, st):
            g = jnp.stack([tgrad(v, temp) for v in x])
            ys = []
            for i in range(n):
                acc = 0.
                for j in range(n):
                    acc = acc - uf('k')(x[j], x[i], h) * g[j] + uf('kx', (d,))(x[j], x[i], h)
                ys.append(x[i] + st * acc / n)
            ys = jnp.stack(ys)
            return (x, jnp.stack([tpot(v, temp) for v in x]), g), (ys, jnp.stack([tpot(v, temp) for v in ys]), jnp.stack([tgrad(v, temp) for v in ys]))
        r0, r1 = T.call('ref', ref, x, temp, h, st)
        T.eq('start', o[:3], r0)
        for nm, a, b in zip(('value', 'potential', 'gradient'), q, r1):
            T.eq(nm, a, b)
        T.eq('iterations', (o[3], it), (np.asarray(0), np.asarray(1)))


@harness(P, 'minibatch', about='with a batch size the mean runs over the drawn particles only; batches are drawn afresh from unused keys')
def _(T):
    n, d, b = 2, 1, 1
    x, temp, h, st, k = T.real('x', (n, d)), T.real('temp', lo=0), T.real('h', pos=True), T.real('step', pos=True), T.key('k')

    def f(x, temp, h, st, k):
        s = SVGD(st, kernel=any_kernel(d, h), optimiser=optimizers.sgd, ensemble_batchsize=b)
        scen = uf_scenario(d, temp)
        a, e = start(s, scen, x, k)
        a, e = s.update(scen, a, e)
        v = a.value
        a, e = s.update(scen, a, e)
        return v, a.value, e.random_key
    v1, v2, nk = T.call('svgd', f, x, temp, h, st, k)
    ds = T.draws()
    T.true('two batches', len(ds) == 2)
    T.independent('draws', ds)
    T.fresh('key', nk, ds)

    def ref(x, temp, h, st, i):
        i = jnp.reshape(i, (n, b))
        ys = []
        for p in range(n):
            acc = 0.
            for q in range(b):
                y = jnp.where(i[p, q] == 0, x[0], x[1])
                acc = acc - uf('k')(y, x[p], h) * tgrad(y, temp) + uf('kx', (d,))(y, x[p], h)
            ys.append(x[p] + st * acc / b)
        return jnp.stack(ys)
    T.eq('first step', v1, T.call('r1', ref, x, temp, h, st, ds[0].array))
    T.eq('second step', v2, T.call('r2', ref, v1, temp, h, st, ds[1].array))


@harness(P, 'default_kernel', about='without a kernel: Gaussian with the mean-distance bandwidth of the current particles, updated every step; adaptive gradient steps')
def _(T):
    n, d = 2, 1
    x, temp, st, k = T.real('x', (n, d)), T.real('temp', lo=0), T.real('step', pos=True), T.key('k')
    T.assume(T.call('a', lambda x: x[0, 0] < x[1, 0], x))

    def f(x, temp, st, k):
        s = SVGD(st, optimiser=optimizers.sgd)
        scen = uf_scenario(d, temp)
        a, e = start(s, scen, x, k)
        h0 = e.parameters.kernel_params.bandwidth
        a, e = s.update(scen, a, e)
        v, h1, h2 = a.value, e.parameters.kernel_params.bandwidth, a.kernel_params.bandwidth
        return v, h0, h1, h2
    v, h0, h1, h2 = T.call('svgd', f, x, temp, st, k)

    def bw(x):
        return 2 * jnp.abs(x[0, 0] - x[1, 0]) / 4 / jnp.sqrt(2 * jnp.log(2.))

    def ref(x, temp, st, h):
        ys = []
        for i in range(n):
            acc = 0.
            for j in range(n):
                kk = jnp.exp(-(x[j] - x[i]) ** 2 / (2 * h ** 2))
                acc = acc - kk * tgrad(x[j], temp) + (x[i] - x[j]) / h ** 2 * kk
            ys.append(x[i] + st * acc / n)
        return jnp.stack(ys)
    T.eq('initial bandwidth', T.call('h', lambda h: h ** 2, h0), T.call('hr', lambda x: bw(x) ** 2, x))
    T.eq('step', v, T.call('ref', ref, x, temp, st, h0))
    T.eq('next bandwidth', T.call('h1', lambda h: h ** 2, h1), T.call('hr1', lambda x: bw(x) ** 2, v))
    T.eq('recorded bandwidth', h1, h2)


@harness(P, 'adagrad', about='the default optimiser takes momentum steps scaled by the root of accumulated squared directions')
def _(T):
    n, d = 2, 1
    x, temp, h, st, k = T.real('x', (n, d)), T.real('temp', lo=0), T.real('h', pos=True), T.real('step', pos=True), T.key('k')

    def f(x, temp, h, st, k):
        s = SVGD(st, kernel=any_kernel(d, h))
        scen = uf_scenario(d, temp)
        a, e = start(s, scen, x, k)
        a, e = s.update(scen, a, e)
        return a.value

    def ref(x, temp, h, st):
        ys = []
        for i in range(n):
            acc = 0.
            for j in range(n):
                acc = acc - uf('k')(x[j], x[i], h) * tgrad(x[j], temp) + uf('kx', (d,))(x[j], x[i], h)
            g = acc / n
            ys.append(x[i] + st * .1 * jnp.where(g * g > 0, g / jnp.sqrt(g * g), 0.))
        return jnp.stack(ys)
    # first step of adagrad with momentum 0.9: mass 0.1 * g / sqrt(g^2)
    T.eq('value', T.call('svgd', f, x, temp, h, st, k), T.call('ref', ref, x, temp, h, st))


@harness(P, 'noisy', about='noisy targets: every particle and step gets its own unused key')
def _(T):
    n = 2
    x, k = T.real('x', (n, 2)), T.key('k')

    def f(x, k):
        class S(Scenario):
            name, dim = 'noisy', 2

            def prior_potential(self, x, random_key=None):
                return jnp.sum(x)

            def likelihood_potential(self, x, random_key=None):
                return random.normal(random_key) * jnp.sum(x)
        s = SVGD(.1, kernel=any_kernel(2, 1.), optimiser=optimizers.sgd)
        scen = S()
        a, e = start(s, scen, x, k)
        for _ in range(2):
            a, e = s.update(scen, a, e)
        return a.potential, e.random_key
    _, nk = T.call('svgd', f, x, k)
    ds = T.draws('normal')
    keep = []
    for d in ds:    # value and gradient evaluations share one key
        if not any(d.key is q.key for q in keep):
            keep.append(d)
    T.true('draws', len(keep) == 3 * n)
    T.independent('draws', keep)
    T.fresh('key', nk, keep)


@harness(P, 'second_run', about='a second run with another ensemble size uses all of its own particles')
def _(T):
    x, y, h, st, k = T.real('x', (1, 1)), T.real('y', (2, 1)), T.real('h', pos=True), T.real('step', pos=True), T.key('k')

    def f(x, y, h, st, k):
        scen = uf_scenario(1, 1.)
        s = SVGD(st, kernel=any_kernel(1, h), optimiser=optimizers.sgd)
        a, e = start(s, scen, x, k)
        s.update(scen, a, e)
        a, e = start(s, scen, y, k)
        a, e = s.update(scen, a, e)
        t = SVGD(st, kernel=any_kernel(1, h), optimiser=optimizers.sgd)
        b, e = start(t, scen, y, k)
        b, e = t.update(scen, b, e)
        return a.value, b.value
    a, b = T.call('svgd', f, x, y, h, st, k)
    T.eq('second run', a, b)


def ksd_ref(x, g, h, w, d, batch=None, sign=-1.):
    """sign: of the two cross terms. The Stein kernel of exp(-U) has minus signs; the code as found has plus signs (known finding, goal
    'signs of the cross terms'); the other goals accept
    either, the same for every pair and term."""
    n = x.shape[0]
    tot = 0.
    for i in range(n):
        js = range(n) if batch is None else range(batch.shape[1])
        acc, ws = 0., 0.
        for j in js:
            y, gy, wy = (x[j], g[j], w[j]) if batch is None else tuple(jnp.where(batch[i, j] == 0, a[0], a[1]) for a in (x, g, w))
            cross = jnp.dot(uf('kx', (d,))(x[i], y, h), gy) + jnp.dot(uf('ky', (d,))(x[i], y, h), g[i])
            k0 = jnp.sum(uf('kxy', (d,))(x[i], y, h)) + sign * cross + uf('k')(x[i], y, h) * jnp.dot(g[i], gy)
            acc = acc + w[i] * wy * k0
            ws = ws + wy
        tot = tot + acc / (jnp.sum(w) * ws)
    return tot


class Probe(kernels.Kernel):
    _call = lambda self, x, y, bandwidth: 0.
    _grad_x = _grad_y = lambda self, x, y, bandwidth: jnp.ones(1)
    _diag_grad_xy = lambda self, x, y, bandwidth: 3 * jnp.ones(1)


def either(T, a, ref, args):
    sign = 1. if metrics.ksd(jnp.zeros((1, 1)), Probe(bandwidth=1.), jnp.ones((1, 1))) > 2.1 else -1.
    r = T.call('ref', lambda *v: ref(sign, *v), *args)
    T.assume(T.call('pos', lambda r: r > 0, r))
    T.eq('squared', T.call('sq', lambda a: a * a, a), r)


@harness(P, 'ksd_signs', about='the cross terms of the Stein kernel of exp(-U) have minus signs')
def _(T):
    x, g, h = T.real('x', (1, 1)), T.real('g', (1, 1)), T.real('h', pos=True)
    a = T.call('ksd', lambda x, g, h: metrics.ksd(x, any_kernel(1, h), g), x, g, h)
    r = T.call('ref', lambda x, g, h: ksd_ref(x, g, h, jnp.ones(1), 1), x, g, h)
    T.assume(T.call('pos', lambda r: r > 0, r))
    T.eq('signs of the cross terms', T.call('sq', lambda a: a * a, a), r)


for n, d in ((2, 1), (2, 2), (3, 1)):
    for weighted in (False, True):
        @harness(P, f'ksd_n{n}_d{d}' + ('_weighted' if weighted else ''), about='squared discrepancy is the weighted double sum of the Stein kernel of the target')
        def _(T, n=n, d=d, weighted=weighted):
            x, g, h, lw = T.real('x', (n, d)), T.real('g', (n, d)), T.real('h', pos=True), T.real('lw', (n,))

            def f(x, g, h, lw):
                k = any_kernel(d, 5.)
                w = lw if weighted else None
                a = metrics.ksd(x, k, grad_potential=g, log_weight=w, bandwidth=h)
                b = metrics.ksd(cdict(value=x, grad_potential=g), any_kernel(d, h), log_weight=w)
                return a, b
            a, b = T.call('ksd', f, x, g, h, lw)
            either(T, a, lambda s, x, g, h, lw: ksd_ref(x, g, h, jnp.exp(lw) if weighted else jnp.ones(n), d, sign=s), (x, g, h, lw))
            T.eq('from a sample', b, a)


@harness(P, 'ksd_minibatch', about='with a batch size the inner sum runs over the drawn particles')
def _(T):
    n, d, b = 2, 1, 1
    x, g, h, lw, k = T.real('x', (n, d)), T.real('g', (n, d)), T.real('h', pos=True), T.real('lw', (n,)), T.key('k')
    a = T.call('ksd', lambda x, g, h, lw, k: metrics.ksd(x, any_kernel(d, h), g, lw, ensemble_batchsize=b, random_key=k), x, g, h, lw, k)
    ds = T.draws()
    T.true('one batch', len(ds) == 1)
    either(T, a, lambda s, x, g, h, lw, i: ksd_ref(x, g, h, jnp.exp(lw), d, jnp.reshape(i, (n, b)), sign=s), (x, g, h, lw, ds[0].array))
