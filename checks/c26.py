"""C26  run diagnostics equal their definitions."""
import jax
from .lib import *
from mocat.src import metrics

P = 'C26'


def acf_ref(v, lags):
    n = v.shape[0]
    c = [v[i] - sum(v[j] for j in range(n)) / n for i in range(n)]
    r = jnp.stack([sum([c[i] * c[i + k] for i in range(n - k)]) for k in range(lags)])
    return r / r[0]


for n, lag in ((2, None), (3, None), (4, None), (4, 2), (3, 2), (4, 3), (4, 7), (6, None), (9, 4)):
    @harness(P, f'autocorrelation_n{n}_lag{lag}', about='autocorrelation of the whole series at every lag asked for')
    def _(T, n=n, lag=lag):
        v = T.real('v', (n,))
        T.assume(T.call('nonconst', lambda v: sum((v[i] - v[j]) ** 2 for i in range(n) for j in range(i)) > 0, v))
        kw = {} if lag is None else dict(max_lag_eval=lag)
        a, b = T.call('acf', lambda v: (metrics.autocorrelation(v, **kw), metrics.autocorrelation(cdict(value=jnp.zeros((n, 2)), potential=v), **kw)), v)
        r = T.call('ref', lambda v: acf_ref(v, min(n, lag or n)), v)
        T.eq('array', a, r)
        T.eq('container: its potential', b, r)


class stub_acf:
    def __init__(self, a):
        self.a = a

    def __enter__(self):
        self.old = metrics.autocorrelation
        metrics.autocorrelation = lambda sample, max_lag_eval=1000: self.a

    def __exit__(self, *a):
        metrics.autocorrelation = self.old


for m in (4, 9, 16):
    @harness(P, f'iat_m{m}', about='integrated time: one plus twice the sum up to the first lag exceeding five times it, or up to the last lag')
    def _(T, m=m):
        rho = T.real('rho', (m - 1,), lo=-1, hi=1)

        def f(rho):
            with stub_acf(jnp.concatenate([jnp.ones(1), rho])):
                return metrics.integrated_autocorrelation_time(jnp.zeros(m)), metrics.ess_autocorrelation(jnp.zeros(m))
        t, e = T.call('iat', f, rho)

        def ref(rho):
            taus = []
            for k in range(m - 1):
                taus.append(1 + 2 * sum(rho[i] for i in range(k + 1)))
            out = taus[-1]
            for k in range(m - 2, -1, -1):
                out = jnp.where(k + 1 - 5 * taus[k] > 0, taus[k], out)
            return out
        r = T.call('ref', ref, rho)
        T.assume(T.call('nz', lambda r: r != 0, r))
        T.eq('time', t, r)
        T.eq('effective size', e, T.call('ess', lambda r: m / r, r))


@harness(P, 'iat_chain', about='integrated time and effective size of an actual series')
def _(T):
    n = 4
    v = T.real('v', (n,))
    T.assume(T.call('nonconst', lambda v: sum((v[i] - v[j]) ** 2 for i in range(n) for j in range(i)) > 0, v))
    a, b = T.call('iat', lambda v: (metrics.integrated_autocorrelation_time(v, max_lag_iat=1), metrics.ess_autocorrelation(cdict(potential=v), max_lag_iat=0)), v)

    def ref(v):
        r = acf_ref(v, n)
        return 1 + 2 * (r[1] + r[2]), 1 + 2 * r[1]
    r, q = T.call('ref', ref, v)
    T.eq('time', a, r)
    T.assume(T.call('nz', lambda q: q != 0, q))
    T.eq('effective size', b, T.call('ess', lambda q: n / q, q))


for n in (1, 2, 3, 6):
    @harness(P, f'ess_weights_n{n}', about='effective sample size of log weights: squared sum over sum of squares, zero weights included, unchanged by a common factor')
    def _(T, n=n):
        lw, c = T.real('lw', (n,)), T.real('c')
        dead = T.boolean('dead')

        def f(lw, c, dead):
            lw = jnp.where(dead & (jnp.arange(n) == n - 1) & (n > 1), -jnp.inf, lw)
            return metrics.ess_log_weight(lw), metrics.log_ess_log_weight(lw), metrics.ess_log_weight(cdict(log_weight=lw + c)), jnp.exp(lw)
        a, la, b, w = T.call('ess', f, lw, c, dead)
        r = T.call('ref', lambda w: jnp.sum(w) ** 2 / jnp.sum(w * w), w)
        T.eq('size', a, r)
        T.eq('rescaled', b, r)
        T.eq('log', T.call('exp', jnp.exp, la), r)


@harness(P, 'ess_range', about='effective sample size lies between one and the number of particles')
def _(T):
    lw = T.real('lw', (2,))
    a = T.call('ess', lambda v: metrics.ess_log_weight(v), lw)
    T.check('at least one', T.call('c', lambda a: a >= 1, a))
    T.check('at most n', T.call('c', lambda a: a <= 2, a))


@harness(P, 'jumping_distance', about='mean squared jump between consecutive states, per coordinate')
def _(T):
    v = T.real('v', (4, 2))
    a, b, c = T.call('sjd', lambda v: (metrics.squared_jumping_distance(v), metrics.squared_jumping_distance(cdict(value=v, potential=v[:, 0])),
                                       metrics.squared_jumping_distance(v[:, 0])), v)
    r = T.call('ref', lambda v: sum((v[i + 1] - v[i]) ** 2 for i in range(3)) / 3, v)
    T.eq('array', a, r)
    T.eq('container', b, r)
    T.eq('one coordinate', c, T.call('r0', lambda r: r[0], r))
