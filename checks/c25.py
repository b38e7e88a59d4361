"""C25  tempered ensemble Kalman inversion: the ensemble update, its start, its temperatures and its end."""
import jax
from jax import random
from .lib import *
from .c16 import ess_of
from .c24 import inv
from mocat.src.core import Scenario
from mocat.src.transport import teki
from mocat.src.transport.teki import TemperedEKI, AdaptiveTemperedEKI

P = 'C25'


def scen(d, m, data, prior=False):
    class S(Scenario):
        name, dim = 'inverse problem', d

        def __init__(self):
            pass

        def likelihood_sample(self, x, random_key):
            return uf('sim', (m,))(x, random.normal(random_key, (m,)))
    if prior:
        S.prior_sample = lambda self, random_key: uf('prior', (d,))(random.normal(random_key, (d,)))
    s = S()
    s.data = data
    return s


def covs(x, y):
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    c = lambda a, b: sum(jnp.outer(p, q) for p, q in zip(a, b)) / (n - 1)
    X, Y = [p - mx for p in x], [p - my for p in y]
    return c(X, X), c(X, Y), c(Y, Y)


def given(x, y, nug):
    cx, cxy, cy = covs(x, y)
    return cx, cxy, cy, cy - cxy.T @ inv(cx + nug * jnp.eye(cx.shape[0])) @ cxy


def root(A):
    if A.shape[0] == 1:
        return jnp.sqrt(A)
    a = jnp.sqrt(A[0, 0])
    b = A[1, 0] / a
    return jnp.stack([jnp.stack([a, 0. * a]), jnp.stack([b, jnp.sqrt(A[1, 1] - b * b)])])


for n, d, m in ((2, 1, 1), (3, 2, 2), (4, 1, 2)):
    @harness(P, f'moments_n{n}_d{d}_m{m}', about='unbiased covariances of the ensemble, of its simulated data, and between them')
    def _(T, n=n, d=d, m=m):
        x, y = T.real('x', (n, d)), T.real('y', (n, m))
        a = T.call('code', teki.calculate_covariances, x, y)
        for nm, p, q in zip(('ensemble', 'cross', 'data'), a, T.call('ref', covs, x, y)):
            T.eq(nm, p, q)


for n, d, m, tier in ((2, 1, 1, 'quick'), (3, 1, 1, 'quick'), (2, 2, 1, 'quick'), (2, 1, 2, 'quick'), (3, 2, 1, 'fixed'), (4, 1, 1, 'fixed')):
    @harness(P, f'update_n{n}_d{d}_m{m}', cost=3,
             about='one step: every member moves by the gain of the tempered joint covariance times its perturbed misfit; then new data are simulated at the moved members')
    def _(T, n=n, d=d, m=m, tier=tier):
        # larger ensembles: given positions, arbitrary simulated data
        x = np.array([[.25, -1.], [1.5, .5], [-.75, 2.], [3., -.5]])[:n, :d] if tier == 'fixed' else T.real('x', (n, d))
        y, data, k = T.real('y', (n, m)), T.real('data', (m,)), T.key('k')
        t0, h, nug = T.real('t0', lo=0), T.real('h', pos=True), T.real('nug', pos=True)
        T.assume(T.call('h', lambda h: h < 1, h))

        def f(x, y, data, k, t0, h, nug):
            S = TemperedEKI(next_temperature=lambda state, extra: state.temperature + h)
            S.parameters.nugget = nug
            s, e = S.update(scen(d, m, data), cdict(value=x, simulated_data=y, temperature=t0, perturb_nan=0),
                            cdict(random_key=k, iter=4, data=data, prec_y_given_x=jnp.eye(m), parameters=cdict(nugget=nug, term_std=0.)))
            return s.value, s.simulated_data, s.temperature, e.prec_y_given_x, e.iter, e.random_key
        v, sd, t, prec, it, k2 = T.call('code', f, x, y, data, k, t0, h, nug)
        ds = T.draws()
        T.true('number of draws', len(ds) == 1 + n)
        T.independent("draws", ds)
        T.fresh("next key", k2, ds)

        def ref(x, y, data, t0, h, nug, z):
            cx, cxy, cy, cyx = given(x, y, nug)
            a, I = 1 / h, jnp.eye(m)
            K = cxy @ inv(cy + (a - 1) * cyx + nug * I)
            L = root(cyx + nug * I)
            return jnp.stack([x[i] + K @ (data - y[i] + jnp.sqrt(a - 1) * (L @ z[i])) for i in range(n)]), inv(cyx + nug * I)
        rv, rp = T.call('ref', ref, x, y, data, t0, h, nug, ds[0].array)
        T.eq('moved', v, rv)
        T.eq('precision of data given the state', prec, rp)
        T.eq('data at the moved members', sd, T.call('sim', lambda v, *z: jnp.stack([uf('sim', (m,))(v[i], z[i]) for i in range(n)]), v, *[q.array for q in ds[1:]]))
        T.eq('temperature', t, T.call('t', lambda a, b: a + b, t0, h))
        T.eq('count', T.call('it', lambda q: q * 1., it), np.asarray(5.))


@harness(P, 'last_step', about='a step of the whole interval (increment one) moves without perturbation')
def _(T):
    n, d, m = 3, 1, 1
    x, y, data, k, nug = T.real('x', (n, d)), T.real('y', (n, m)), T.real('data', (m,)), T.key('k'), T.real('nug', pos=True)

    def f(x, y, data, k, nug):
        S = TemperedEKI(temperature_schedule=jnp.array([0., 1.]))
        S.parameters.nugget = nug
        s, e = S.update(scen(d, m, data), cdict(value=x, simulated_data=y, temperature=0., perturb_nan=0),
                        cdict(random_key=k, iter=0, data=data, parameters=cdict(term_std=0.)))
        return s.value, s.temperature
    v, t = T.call('code', f, x, y, data, k, nug)

    def ref(x, y, data, nug):
        cx, cxy, cy, cyx = given(x, y, nug)
        K = cxy @ inv(cy + nug * jnp.eye(m))
        return jnp.stack([x[i] + K @ (data - y[i]) for i in range(n)])
    T.eq('moved', v, T.call('ref', ref, x, y, data, nug))
    T.eq('temperature', t, np.asarray(1.))


for prior in (True, False):
    @harness(P, f'start_{"prior" if prior else "normal"}', about='without an initial ensemble members are drawn from the prior (or standard normal), data are simulated at each, the temperature is zero')
    def _(T, prior=prior):
        n, d, m = 3, 2, 1
        data, k = T.real('data', (m,)), T.key('k')
        S = TemperedEKI(temperature_schedule=jnp.array([0., .5, 1.]))

        def f(data, k):
            s, e = S.startup(scen(d, m, data, prior), n, None, cdict(random_key=k))
            return s.value, s.simulated_data, s.temperature, e.data, e.random_key, S.prior_stds
        v, sd, t, da, k2, std = T.call('code', f, data, k)
        ds = T.draws()
        T.independent("draws", ds)
        T.fresh("next key", k2, ds)
        nz = n if prior else 1
        T.true('number of draws', len(ds) == nz + n)
        z = [q.array for q in ds]
        if prior:
            T.eq('members', v, T.call('ref', lambda *z: jnp.stack([uf('prior', (d,))(q) for q in z]), *z[:n]))
        else:
            T.eq('members', v, z[0])
        T.eq('simulated data', sd, T.call('sim', lambda v, *z: jnp.stack([uf('sim', (m,))(v[i], z[i]) for i in range(n)]), v, *z[nz:]))
        T.eq('temperature', t, np.asarray(0.))
        T.eq('data', da, data)
        T.eq('prior spread', T.call('sq', lambda a: a * a, std), T.call('var', lambda v: jnp.diag(covs(v, v)[0]), v))


@harness(P, 'start_given', about='a given ensemble with simulated data is kept as it is')
def _(T):
    n, d, m = 2, 1, 1
    x, y, data, k = T.real('x', (n, d)), T.real('y', (n, m)), T.real('data', (m,)), T.key('k')

    def f(x, y, data, k):
        s, e = TemperedEKI().startup(scen(d, m, data, True), n, cdict(value=x, simulated_data=y), cdict(random_key=k))
        return s.value, s.simulated_data
    a, b = T.call('code', f, x, y, data, k)
    T.eq('members', a, x)
    T.eq('simulated data', b, y)


@harness(P, 'needs_data', about='without data the start is refused')
def _(T):
    k = T.key('k')

    def f(k):
        try:
            TemperedEKI().startup(scen(1, 1, None, True), 2, None, cdict(random_key=k))
        except AttributeError:
            return 1.
        return 0.
    T.eq('refused', T.call('code', f, k), np.asarray(1.))


for con in (False, True):
    @harness(P, 'termination' + ('_constrained' if con else ''),
             about='a run ends when the final temperature is reached, the iterations are used up, every coordinate has shrunk below the given fraction of its initial spread, or a value is NaN; not before')
    def _(T, con=con):
        n, d = 2, 2
        x, x0, t, tm, it, frac = T.xreal('x', (n, d)), T.real('x0', (n, d)), T.real('t', lo=0), T.real('tmax', pos=True), T.real('it', integer=True, lo=0), T.real('frac', lo=0)
        mi = 5

        def f(x, x0, t, tm, it, frac):
            S = TemperedEKI(max_iter=mi)
            S.max_temperature = tm
            sc = scen(d, 1, jnp.zeros(1))
            if con:
                sc.constrain = lambda v: 3. * v
            S.startup(sc, n, cdict(value=x0, simulated_data=jnp.zeros((n, 1))), cdict(random_key=None))
            return S.termination_criterion(cdict(value=x, temperature=t), cdict(iter=it, parameters=cdict(term_std=frac)))
        a = T.call('stop', f, x, x0, t, tm, it, frac)

        def ref(x, x0, t, tm, it, frac):
            x, x0 = (3. * x, 3. * x0) if con else (x, x0)
            small = jnp.all(jnp.stack([jnp.sqrt(covs(x, x)[0][i, i]) < frac * jnp.sqrt(covs(x0, x0)[0][i, i]) for i in range(d)]))
            return (t >= tm) | (it >= mi) | jnp.any(jnp.isnan(x)) | small
        T.eq('stop', a, T.call('ref', ref, x, x0, t, tm, it, frac))


for late in (False, True):
    @harness(P, 'schedule' + ('_assigned' if late else ''), about='a given schedule starting at zero is visited temperature by temperature, once each, and the run stops exactly at its end')
    def _(T, late=late):
        n, d, m = 2, 1, 1
        k, t1, t2 = T.key('k'), T.real('t1', pos=True), T.real('t2', pos=True)
        x, y, data = T.real('x', (n, d)), T.real('y', (n, m)), T.real('data', (m,))
        T.assume(T.call('lt', lambda a, b: (a < b), t1, t2))

        def f(k, t1, t2, x, y, data):
            sch = jnp.stack([0. * t1, t1, t2])
            S = TemperedEKI(**({} if late else dict(temperature_schedule=sch)))
            if late:
                S.temperature_schedule = sch
            ts, st = [], []
            for i in range(3):
                e = cdict(iter=i, parameters=cdict(term_std=0.), data=data)
                if i:
                    ts.append(S.next_temperature(None, e))
            S.prior_stds, S.ensemble_std = jnp.ones(1), lambda v: jnp.ones(1)
            for i, t in enumerate((0. * t1, t1, t2)):
                st.append(S.termination_criterion(cdict(value=x, temperature=t), cdict(iter=i, parameters=cdict(term_std=0.))))
            return jnp.stack(ts), jnp.stack(st), S.max_temperature
        a, b, tm = T.call('code', f, k, t1, t2, x, y, data)
        T.eq('temperatures', a, T.call('r', lambda a, b: jnp.stack([a, b]), t1, t2))
        T.eq('stops at the end only', b, np.array([False, False, True]))
        T.eq('final temperature', tm, t2)


@harness(P, 'schedule_removed', about='a sampler whose schedule was removed follows the default growth again and is not limited by the old schedule')
def _(T):
    x, data = T.real('x', (2, 1)), T.real('data', (1,))

    def f(x, data):
        out = []
        for late in (False, True):
            S = TemperedEKI()
            if late:
                S.temperature_schedule = jnp.array([0., .5, 1.])
                S.temperature_schedule = None
            S.startup(scen(1, 1, data), 2, cdict(value=x, simulated_data=x), cdict(random_key=None))
            out.append((jnp.stack([jnp.asarray(S.next_temperature(None, cdict(iter=i))) for i in (1, 2, 7)]), np.asarray(S.max_iter)))
        return out
    (a, l1), (b, l2) = T.call('code', f, x, data)
    T.eq('temperatures', b, a)
    T.eq('iterations', l2, l1)


for lo, hi, a, b in ((0., .2, 1, 15), (.9, 1., 46, 52)):
    @harness(P, f'default_schedule_{b}', about='without a schedule temperatures increase from step to step and stop at the final temperature, never beyond')
    def _(T, lo=lo, hi=hi, a=a, b=b):
        x, tm, data = T.real('x', (2, 1)), T.real('tmax', pos=True), T.real('data', (1,))
        T.assume(T.call('le', lambda q: (q <= hi) & (q >= lo), tm))

        def f(x, tm, data):
            S = TemperedEKI(max_temperature=tm)
            S.startup(scen(1, 1, data), 2, cdict(value=x, simulated_data=x), cdict(random_key=None))
            return [jnp.asarray(S.next_temperature(None, cdict(iter=i))) for i in range(a, b + 1)]
        ts = T.call('code', f, x, tm, data)
        for i, t in enumerate(ts):
            T.check(f'not beyond the end {a + i}', T.call('c', lambda t, tm: (t <= tm) & (t > 0), t, tm))
            if i:
                T.check(f'forward until the end {a + i}', T.call('c2', lambda t, u, tm: (t > u) | (t == tm), t, ts[i - 1], tm))
        T.check('end reached', T.call('c3', lambda t, tm: t == tm, t, tm))


for n, mit in ((2, 0), (2, 1), (3, 0)):
    @harness(P, f'adaptive_m{mit}' + (f'_n{n}' if n > 2 else ''), cost=2, about='adaptive step: the final temperature when it keeps enough effective members, otherwise a temperature between the current and the final one')
    def _(T, mit=mit, n=n):
        m = 1
        y, data, t0, dt, q, tau = T.real('y', (n, m)), T.real('data', (m,)), T.real('t0', lo=0), T.real('dt', pos=True), T.real('q', pos=True), T.real('tau', lo=1, hi=1.2)
        T.assume(T.call('tau', lambda tau: tau > 1, tau))

        def f(y, data, t0, dt, q, tau):
            S = AdaptiveTemperedEKI(ess_threshold=.8)
            S.max_temperature = t0 + dt
            S.parameters.max_bisection_iter, S.parameters.bisection_tol = mit, jnp.log(tau)
            return S.next_temperature(cdict(value=y, simulated_data=y, temperature=t0), cdict(iter=3, data=data, prec_y_given_x=q[None, None]))
        t = T.call('next', f, y, data, t0, dt, q, tau)
        keep = T.call('keep', lambda y, data, dt, q: ess_of(-dt * .5 * q * (y[:, 0] - data[0]) ** 2) / (n * .8), y, data, dt, q)
        T.check('forward and not beyond the end', T.call('in', lambda t, t0, dt: (t0 <= t) & (t <= t0 + dt), t, t0, dt))
        T.check('end reached when allowed', T.call('end', lambda t, t0, dt, r: ~(r >= 1) | (t == t0 + dt), t, t0, dt, keep), generic=False)
        if mit == 0:
            T.check('the nearer end without search steps', T.call('far', lambda t, t0, dt, r: jnp.where(r > .8, t == t0 + dt, t == t0), t, t0, dt, keep), generic=False)
