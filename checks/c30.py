"""C30  SMC for approximate Bayesian computation."""
import jax
from jax import random
from .lib import *
from .c16 import resample_ref, pick
from .c18 import abc_scen, sim, dist2
from mocat.src.abc.smc import MetropolisedABCSMCSampler
from mocat.src.abc.mcmc import RandomWalkABC

P = 'C30'
SCHED = jnp.array([5., 2., 1.])


def dscen(d, m, data):
    """problem with an arbitrary distance."""
    s = abc_scen(d, m, data)
    type(s).distance_function = lambda self, y: uf('dist')(y)
    return s


def dist(y):
    return uf('dist')(y)


def quantile_ref(v, p):
    """p-quantile (linear interpolation) of two or three values."""
    n = v.shape[0]
    lo, hi = jnp.minimum(v[0], v[1]), jnp.maximum(v[0], v[1])
    if n == 2:
        s = [lo, hi]
    else:
        s = [jnp.minimum(lo, v[2]), jnp.maximum(lo, jnp.minimum(hi, v[2])), jnp.maximum(hi, v[2])]
    q = p * (n - 1)
    if n == 2:
        return s[0] + q * (s[1] - s[0])
    return jnp.where(q <= 1, s[0] + q * (s[1] - s[0]), s[1] + (q - 1) * (s[2] - s[1]))


for n, d, thr_res, mode, adapt in ((2, 1, 0., 'never', False), (2, 1, 1.1, 'always', False), (2, 1, .75, 'sometimes', False), (2, 1, 0., 'never', True), (2, 2, 0., 'never', True), (3, 1, 0., 'never', False)):
    m = 1

    @harness(P, f'update_n{n}_d{d}_{mode}' + ('_adaptive' if adapt else ''),
             about='one step: resample exactly when too few particles are inside the ball, move the particles inside by the kernel at the current threshold, '
                   'never move those outside, tighten the threshold, weigh by the new ball')
    def _(T, n=n, d=d, mode=mode, thr_res=thr_res, adapt=adapt):
        x, e0, data, h, thr, k = T.real('x', (n, d)), T.real('e0', (n, m)), T.real('data', (m,)), T.real('h', (d,), pos=True), T.real('thr', pos=True), T.key('k')
        S = MetropolisedABCSMCSampler(ess_threshold_resample=thr_res, ess_threshold_retain=.8, **({} if adapt else dict(threshold_schedule=SCHED)))

        def f(x, y, data, h, thr, k):
            scen = dscen(d, m, data)
            s, e = S.startup(scen, n, cdict(value=x, simulated_data=y), cdict(random_key=k))
            dd = jnp.stack([dist(v) for v in y])
            s.distance, s.threshold = dd, jnp.ones(n) * thr
            s.log_weight = jnp.where(dd > thr, -jnp.inf, 0.)
            s.ess = jnp.ones(n) * jnp.sum(dd <= thr)
            e.parameters.threshold, e.parameters.stepsize, e.parameters.mcmc_steps = thr, h, np.int32(1)
            e.iter, e.random_key = 0, k
            s, e = S.update(scen, s, e)
            return s, e
        y = T.call('y', lambda x, e0: jnp.stack([sim(x[i], e0[i], m) for i in range(n)]), x, e0)
        T.assume(T.call('some alive', lambda y, data, thr: jnp.any(jnp.stack([dist(v) <= thr for v in y])), y, data, thr))
        s, e = T.call('smc', f, x, y, data, h, thr, k)
        ds = T.draws()
        z, u, g = ([q for q in ds if q.kind == kd] for kd in ('normal', 'uniform', 'gumbel'))
        T.true('draws', len(z) == 2 * n and len(u) == n and len(g) == (mode != 'never'))
        T.independent('draws', ds)
        T.fresh('key', e.random_key, ds)

        def ref(x, y, data, h, thr, z, u, g):
            alive0 = [dist(v) <= thr for v in y]
            na = sum(jnp.where(a, 1., 0.) for a in alive0)
            do = na < thr_res * n
            idx = resample_ref(g, jnp.where(jnp.stack(alive0), 0., -jnp.inf)) if g is not None else range(n)
            X, Y, AL, LIVE = [], [], [], []
            for i in range(n):
                a = jnp.where(do, True, alive0[i])
                x0, y0 = (jnp.where(do, pick(q, idx[i]), q[i]) for q in (x, y))
                x1 = x0 + jnp.sqrt(h) * z[i]
                y1 = sim(x1, z[n + i], m)
                p = jnp.where(dist(y1) < thr, jnp.minimum(1., jnp.exp(uf('prior')(x0) - uf('prior')(x1))), 0.)
                ok = a & (u[i] < p)
                X.append(jnp.where(ok, x1, x0))
                Y.append(jnp.where(ok, y1, y0))
                AL.append(jnp.where(a, p, 0.))
                LIVE.append(jnp.where(a, 1., 0.))
            X, Y = jnp.stack(X), jnp.stack(Y)
            d2 = jnp.stack([dist(v) for v in Y])
            return X, Y, d2, jnp.stack([uf('prior')(v) for v in X]), sum(AL) / sum(LIVE), do, jnp.where(do, n * 1., na)
        X, Y, d2, pr, al, do, na = T.call('ref', ref, x, y, data, h, thr, [q.array for q in z], [q.array for q in u], g[0].array if g else None)
        T.eq('resample decision', e.resample_bool, do)
        T.eq('value', s.value, X)
        T.eq('simulated data', s.simulated_data, Y)
        T.eq('distance', s.distance, d2)
        T.eq('prior', s.prior_potential, pr)
        T.eq('mean acceptance', e.alpha_mean, al)
        t1 = T.call('thr', lambda d2, na: quantile_ref(d2, .8 * na / n), d2, na) if adapt else np.asarray(2.)
        T.eq('threshold', e.parameters.threshold, t1)
        T.eq('recorded threshold', s.threshold, T.call('rep', lambda t: jnp.ones(n) * t, t1))
        w = T.call('w', lambda dd, t: jnp.where(dd <= t, 1., 0.), s.distance, t1)
        T.eq('weights', T.call('exp', jnp.exp, s.log_weight), w)
        T.assume(T.call('left', lambda w: jnp.sum(w) > 0, w))
        T.eq('effective size', s.ess, T.call('es', lambda w: jnp.ones(n) * jnp.sum(w), w))
        T.eq('steps', e.parameters.stepsize, T.call('var', lambda X: jnp.sum((X - jnp.mean(X, 0)) ** 2, 0) / (n - 1) / d * 2.38 ** 2, X))


for given in (True, False):
    @harness(P, 'startup_' + ('given' if given else 'drawn'), about='the run starts with prior draws, one simulation each, weighed by the first threshold')
    def _(T, given=given):
        n, d, m = 2, 2, 1
        x, data, k = T.real('x', (n, d)), T.real('data', (m,)), T.key('k')
        S = MetropolisedABCSMCSampler(threshold_schedule=SCHED)

        def f(x, data, k):
            s, e = S.startup(abc_scen(d, m, data), n, cdict(value=x) if given else None, cdict(random_key=k))
            return s, e
        s, e = T.call('smc', f, x, data, k)
        ds = T.draws('normal')
        T.true('draws', len(ds) == (n if given else 2 * n))
        T.independent('draws', ds)
        T.fresh('key', e.random_key, ds)
        if not given:
            x = T.call('x', lambda a: jnp.stack(a), [q.array for q in ds[:n]])
        y = T.call('y', lambda x, es: jnp.stack([sim(v, q, m) for v, q in zip(x, es)]), x, [q.array for q in ds[-n:]])
        d2 = T.call('d2', lambda y, data: jnp.stack([dist2(v, data) for v in y]), y, data)
        T.eq('value', s.value, x)
        T.eq('simulated data', s.simulated_data, y)
        T.eq('distance', T.call('sq', lambda a: a * a, s.distance), d2)
        T.eq('prior', s.prior_potential, T.call('pr', lambda x: jnp.stack([uf('prior')(v) for v in x]), x))
        T.eq('threshold', (s.threshold, e.parameters.threshold), (np.full(n, 5.), np.asarray(5.)))
        T.eq('weights', T.call('exp', jnp.exp, s.log_weight), T.call('w', lambda d2: jnp.where(d2 <= 25., 1., 0.), d2))
        T.eq('steps', e.parameters.stepsize, T.call('var', lambda X: jnp.sum((X - jnp.mean(X, 0)) ** 2, 0) / (n - 1) / d * 2.38 ** 2, x))


@harness(P, 'kernel_steps', about='several kernel steps per move keep the last state and the mean acceptance; the chain uses the threshold and steps of the ensemble')
def _(T):
    n, d, m, K = 1, 1, 1, 2
    x, e0, data, h, thr, k = T.real('x', (n, d)), T.real('e0', (n, m)), T.real('data', (m,)), T.real('h', pos=True), T.real('thr', pos=True), T.key('k')
    S = MetropolisedABCSMCSampler(RandomWalkABC(stepsize=1., threshold=9.), mcmc_steps=K, ess_threshold_resample=0., threshold_schedule=SCHED)

    def f(x, y, data, h, thr, k):
        scen = dscen(d, m, data)
        s, e = S.startup(scen, n, cdict(value=x, simulated_data=y), cdict(random_key=k))
        s.distance, s.threshold, s.log_weight = jnp.stack([dist(v) for v in y]), jnp.ones(n) * thr, jnp.zeros(n)
        e.parameters.threshold, e.parameters.stepsize, e.parameters.mcmc_steps = thr, h, np.int32(K)
        e.random_key = k
        s, e = S.update(scen, s, e)
        return s, e
    y = T.call('y', lambda x, e0: sim(x[0], e0[0], m)[None], x, e0)
    T.assume(T.call('alive', lambda y, data, thr: dist(y[0]) <= thr, y, data, thr))
    s, e = T.call('smc', f, x, y, data, h, thr, k)
    ds = T.draws()
    z, u = [q for q in ds if q.kind == 'normal'], [q for q in ds if q.kind == 'uniform']
    T.true('draws', len(z) == 2 * K and len(u) == K)
    T.independent('draws', ds)

    def ref(x, y, data, h, thr, z, u):
        x, y, al = x[0], y[0], []
        for i in range(K):
            x1 = x + jnp.sqrt(h) * z[2 * i]
            y1 = sim(x1, z[2 * i + 1], m)
            p = jnp.where(dist(y1) < thr, jnp.minimum(1., jnp.exp(uf('prior')(x) - uf('prior')(x1))), 0.)
            al.append(p)
            x, y = jnp.where(u[i] < p, x1, x), jnp.where(u[i] < p, y1, y)
        return x[None], y[None], (sum(al) / K)[None]
    X, Y, al = T.call('ref', ref, x, y, data, h, thr, [q.array for q in z], [q.array for q in u])
    T.eq('value', s.value, X)
    T.eq('simulated data', s.simulated_data, Y)
    T.eq('acceptance', s.alpha, al)
    T.eq('steps kept', e.parameters.stepsize, h)


@harness(P, 'termination', about='a run ends when mean acceptance falls to its limit or iterations are used up')
def _(T):
    S = MetropolisedABCSMCSampler(termination_alpha=.05, max_iter=7)
    a, it = T.real('a', lo=0, hi=1), T.real('it', integer=True, lo=0)
    r = T.call('stop', lambda a, it: S.termination_criterion(cdict(), cdict(alpha_mean=a, iter=it, parameters=cdict(termination_alpha=.05))), a, it)
    T.eq('stop', r, T.call('ref', lambda a, it: (a <= .05) | (it >= 7), a, it))


@harness(P, 'schedule', about='a schedule fixes the thresholds and the number of iterations; the record has one threshold and effective size per step')
def _(T):
    S = MetropolisedABCSMCSampler()
    S.threshold_schedule = SCHED
    T.true('limit', S.max_iter == 3)
    th, es = T.real('th', (2,)), T.real('es', (2,))
    it = T.choice('it', 3)
    a = T.call('next', lambda it: S.next_threshold(cdict(), cdict(iter=it)), it)
    T.eq('next', a, T.call('r', lambda it: jnp.where(it == 0, 5., jnp.where(it == 1, 2., 1.)), it))
    c = T.call('clean', lambda th, es: S.clean_chain(None, cdict(threshold=jnp.stack([th, th], 1), ess=jnp.stack([es, es], 1))), th, es)
    T.eq('thresholds', c.threshold, th)
    T.eq('effective sizes', c.ess, es)


@harness(P, 'back_to_adaptive', about='a sampler without a schedule, or whose schedule was removed, chooses thresholds adaptively and is not limited by the old schedule')
def _(T):
    n = 3
    v = T.real('v', (n,))

    def f(v):
        out = []
        for start in (None, SCHED):
            S = MetropolisedABCSMCSampler(threshold_schedule=start, ess_threshold_retain=.5)
            S.threshold_schedule = None
            e = cdict(iter=1, parameters=cdict(ess_threshold_retain=.5))
            out.append((S.next_threshold(cdict(distance=v, ess=jnp.ones(n) * n), e), np.asarray(S.max_iter)))
        return out
    (a, l1), (b, l2) = T.call('code', f, v)
    r = T.call('ref', lambda v: quantile_ref(v, .5), v)
    T.eq('threshold', (a, b), (r, r))
    T.eq('iterations', (l1, l2), (np.asarray(10000), np.asarray(10000)))
