"""C27  built-in simulation models: g-and-k, Ricker, Lotka-Volterra, SIR, Lorenz."""
import contextlib
import jax
from jax import random
from jax.scipy.stats import norm
from .lib import *
from .c16 import pick
from mocat.src.abc.scenarios import gk, ricker, SIR as sir, lotka_volterra as lv
from mocat.src.ssm.scenarios import lorenz63 as l63, lorenz96 as l96

P = 'C27'


@contextlib.contextmanager
def any_quantile():
    """the normal distribution function and its inverse are arbitrary functions here."""
    old = norm.ppf, norm.cdf
    norm.ppf, norm.cdf = lambda q: jnp.vectorize(uf('ppf'))(jnp.asarray(q)), lambda q: jnp.vectorize(uf('cdf'))(jnp.asarray(q))
    try:
        yield
    finally:
        norm.ppf, norm.cdf = old


def ppf(q):
    return jnp.vectorize(uf('ppf'))(q)


def cdf(q):
    return jnp.vectorize(uf('cdf'))(q)


GK = {'uniform': gk.GKUniformPrior, 'transformed': gk.GKTransformedUniformPrior,
      'one_uniform': gk.GKOnlyAUniformPrior, 'one_transformed': gk.GKOnlyATransformedUniformPrior}
for tag, C, exponent in [(t, c, False) for t, c in GK.items()] + [(t, c, True) for t, c in GK.items() if 'one' in t]:
    d, tr = C.dim, 'transformed' in tag

    @harness(P, f'gk_{tag}' + ('_exponent' if exponent else ''), about='g-and-k data are a + b (1 + c (1 - exp(-g z)) / (1 + exp(-g z))) z (1 + z^2)^k at normal quantiles z of uniform draws kept inside (0, 1)')
    def _(T, C=C, d=d, tr=tr, exponent=exponent):
        m = 2
        x, mn, w, c, k = T.real('x', (d,)), T.real('mn', (d,)), T.real('w', (d,), pos=True), T.real('c'), T.key('k')
        o = T.real('o', (3,))

        def make(mn, w, c, o):
            class S(C):
                name, n_unsummarised_data = 'gk', m

                def summarise_data(self, data):
                    return uf('summary', (2,))(data)
            s = S()
            s.prior_mins, s.prior_maxs, s.c = mn, mn + w, c
            if d == 1:
                s.B, s.g, s.k = o[0], o[1], o[2]
            return s

        def f(x, mn, w, c, o, k):
            with any_quantile():
                return make(mn, w, c, o).likelihood_sample(x, k)
        v = T.call('code', f, x, mn, w, c, o, k)
        ds = T.draws()
        T.independent('draws', ds)
        T.true('draws', len(ds) == 1 and ds[0].kind == 'uniform')

        def ref(x, mn, w, c, o, u, power=None):
            th = mn + cdf(x) * w if tr else x
            a, b, g, kk = th if d == 4 else (th[0], *o)
            kk = c if power == 'c' else kk
            z = ppf(1e-5 + u * (1 - 2e-5))
            e = jnp.exp(-g * z)
            return uf('summary', (2,))(a + b * (1 + c * (1 - e) / (1 + e)) * z * (1 + z * z) ** kk)
        r = T.call('ref', ref, x, mn, w, c, o, ds[0].array)
        if d == 4 or exponent:
            T.eq('exponent' if exponent else 'data', v, r)
        else:
            # the exponent has a harness of its own
            T.check('data', T.call('either', lambda v, a, b: jnp.all(v == a) | jnp.all(v == b), v, r, T.call('refc', lambda *q: ref(*q, power='c'), x, mn, w, c, o, ds[0].array)))
        if exponent:
            return

        # prior
        pot = T.call('pot', lambda x, mn, w, c, o: make(mn, w, c, o).prior_potential(x), x, mn, w, c, o)
        p0 = T.call('pot0', lambda mn, w, c, o: make(mn, w, c, o).prior_potential(mn + w / 2 if not tr else 0. * mn), mn, w, c, o)
        if tr:
            T.eq('prior potential', T.call('dp', lambda a, b: a - b, pot, p0), T.call('half', lambda x: .5 * jnp.sum(x * x), x))
        else:
            T.eq('support', T.call('fin', jnp.isfinite, pot), T.call('in', lambda x, mn, w: jnp.all((x > mn) & (x < mn + w)), x, mn, w))
            T.check('flat on the support', T.call('flat', lambda p, q: ~jnp.isfinite(p) | (p == q), pot, p0))
        s = T.call('draw', lambda mn, w, c, o, k: make(mn, w, c, o).prior_sample(k), mn, w, c, o, k)
        ds = T.draws()
        T.independent('prior draws', ds)
        T.true('prior draws', len(ds) == 1 and ds[0].kind == ('normal' if tr else 'uniform'))
        if tr:
            T.eq('prior draw', s, ds[0].array)
        else:
            T.eq('prior draw', s, T.call('u', lambda u, mn, w: mn + u * w, ds[0].array, mn, w))
        if tr:
            def g(x, mn, w, c, o):
                with any_quantile():
                    q = make(mn, w, c, o)
                    return q.constrain(x), q.unconstrain(x)
            a, b = T.call('maps', g, x, mn, w, c, o)
            T.eq('constrain', a, T.call('c', lambda x, mn, w: mn + cdf(x) * w, x, mn, w))
            T.eq('unconstrain', b, T.call('uc', lambda x, mn, w: ppf((x - mn) / w), x, mn, w))


@harness(P, 'ricker', about='populations follow n -> r n exp(-n + noise), one new draw each; observations are Poisson with rate scale times population at the chosen times, including the initial one')
def _(T):
    steps, inds = 3, [0, 2, 3]
    x, n0, k = T.real('x', (3,)), T.real('n0', pos=True), T.key('k')

    def f(x, n0, k):
        s = ricker.Ricker()
        s.initial_n, s.num_steps, s.observation_inds = n0, steps, jnp.array(inds)
        return s.likelihood_sample(x, k)
    v = T.call('code', f, x, n0, k)
    ds = T.draws()
    T.independent('draws', ds)
    z, po = [q for q in ds if q.kind == 'normal'], [q for q in ds if q.kind == 'poisson']
    T.true('draws', len(z) == steps and len(po) == 1)

    def ref(x, n0, *z):
        ns = [n0]
        for q in z:
            ns.append(x[0] * ns[-1] * jnp.exp(-ns[-1] + x[1] * q))
        return jnp.stack([x[2] * ns[i] for i in inds])
    T.eq('rates', po[0].extra[0], T.call('ref', ref, x, n0, *[q.array for q in z]))
    T.eq('observations', v, T.call('obs', lambda o: jnp.where(o < 0, 0, o), po[0].array))


@harness(P, 'ricker_path', about='the simulated path has the initial population and one population per step')
def _(T):
    steps = 3
    r, sd, n0, k = T.real('r'), T.real('sd'), T.real('n0', pos=True), T.key('k')
    v = T.call('code', lambda n0, r, sd, k: ricker.ricker_simulate(n0, r, sd, steps, k), n0, r, sd, k)
    z = [q.array for q in T.draws()]

    def ref(r, sd, n0, *z):
        ns = [n0]
        for q in z:
            ns.append(r * ns[-1] * jnp.exp(-ns[-1] + sd * q))
        return jnp.stack(ns)
    T.eq('path', v, T.call('ref', ref, r, sd, n0, *z))


LV_MOVES, SIR_MOVES = np.array([[1., 0.], [-1., 1.], [0., -1.]]), np.array([[-1., 1.], [0., -1.]])


def hazards(kind, p, s, pop):
    return jnp.stack([p[0] * s[0], p[1] * s[0] * s[1], p[2] * s[1]]) if kind == 'lv' else jnp.stack([p[0] * s[0] * s[1] / pop, p[1] * s[1]])


for kind in ('lv', 'sir'):
    np_, moves = (3, LV_MOVES) if kind == 'lv' else (2, SIR_MOVES)

    @harness(P, f'{kind}_step', about='one event: reaction j is chosen with probability proportional to its hazard, the clock moves forward by a non-negative exponential time of the total rate')
    def _(T, kind=kind, np_=np_, moves=moves):
        s, t, p, k, pop = T.real('s', (2,), pos=True), T.real('t'), T.real('p', (np_,), pos=True), T.key('k'), T.real('pop', pos=True)

        def f(s, t, p, k, pop):
            if kind == 'lv':
                return lv.lotka_volterra_single_step((s, t), (p, k))
            return sir.sir_single_step((s, t), (p, pop, k))
        (s2, t2), ex = T.call('code', f, s, t, p, k, pop)
        ds = T.draws()
        T.independent('draws', ds)
        T.fresh('next key', ex[-1], ds)
        T.eq('parameters kept', ex[0], p)
        T.true('draws', len(ds) == 2 and all(q.kind == 'uniform' for q in ds))
        T.check('time does not run backwards', T.call('fw', lambda a, b: a >= b, t2, t), generic=False)
        h = T.call('h', lambda s, p, pop: hazards(kind, p, s, pop), s, p, pop)
        # the uniform draw of the clock, up to the guard against log(0)
        T.check('waiting time', T.call('w2', lambda a, b, h, u: jnp.abs(jnp.exp(-(a - b) * jnp.sum(h)) - u) <= 2e-6, t2, t, h, ds[0].array))

        def moved(s2, s, h, u):
            # inverse transform over the cumulative hazards, either orientation of the uniform
            tot, out = jnp.sum(h), []
            for v in (u, 1 - u):
                c, ok = 0., jnp.asarray(False)
                for j in range(len(moves)):
                    inside = (v * tot > c) & (v * tot < c + h[j])
                    edge = (v * tot == c) | (v * tot == c + h[j])
                    ok = ok | edge | (inside & jnp.all(s2 == s + moves[j]))
                    c = c + h[j]
                out.append(ok)
            return jnp.stack(out)
        T.check('reaction', T.call('mv', lambda a, b, h, u: moved(a, b, h, u)[1], s2, s, h, ds[1].array))
        T.check('one of the reactions', T.call('one', lambda a, b: jnp.any(jnp.stack([jnp.all(a == b + m) for m in moves])), s2, s), generic=False)


for nt, ev, shift in ((2, 1, False), (3, 2, False), (3, 3, False), (2, 1, True), (3, 3, True)):
    @harness(P, f'lv_path_T{nt}_events{ev}' + ('_shifted' if shift else ''), cost=3,
             about='the simulated state at each observation time is the state after all events up to it (the initial state before the first); events do not continue after the last time')
    def _(T, nt=nt, ev=ev, shift=shift):
        s, p, k, tt = T.real('s', (2,), pos=True), T.real('p', (3,), pos=True), T.key('k'), T.real('t', (nt - 1,), pos=True)
        t0 = T.real('t0') if shift else np.asarray(0.)

        def times(t0, tt):
            return t0 + jnp.concatenate([jnp.zeros(1), jnp.cumsum(tt)])

        # the steps themselves are replaced by arbitrary moves after arbitrary positive waiting times
        def step(carry, extra):
            st, t = carry
            prm, key = extra
            a, b = random.split(key)
            w = random.uniform(a, (3,))
            return (st + w[:2], t + w[2] * 3.), (prm, b)

        def f(s, p, k, t0, tt):
            old, lv.lotka_volterra_single_step = lv.lotka_volterra_single_step, step
            try:
                return lv.lotka_volterra_simulate(s, times(t0, tt), p, k, max_iter=ev)
            finally:
                lv.lotka_volterra_single_step = old
        v = T.call('code', f, s, p, k, t0, tt)
        ds = [q.array for q in T.draws()]
        T.true('events', len(ds) == ev)

        def ref(s, t0, tt, *w):
            ts = times(t0, tt)
            rows = []
            for q in range(1, nt):
                cur, clock = s, t0
                st = s
                for u in w:
                    live = clock < ts[-1]
                    st = jnp.where(live, st + u[:2], st)
                    clock = jnp.where(live, clock + u[2] * 3., clock)
                    cur = jnp.where(live & (clock < ts[q]), st, cur)
                rows.append(cur)
            return jnp.stack(rows)
        for u in ds:
            T.assume(T.call('wpos', lambda u: u[2] > 0, u))
        T.eq('states', v, T.call('ref', ref, s, t0, tt, *ds))


@harness(P, 'sir_path', cost=2, about='an epidemic runs while anyone is infected; recorded states and times are those after each event')
def _(T):
    ev = 3
    k, p = T.key('k'), T.real('p', (2,), pos=True)

    def f(p, k):
        return sir.sir_simulate(jnp.array([2., 1.]), p, 3., k, max_iter=ev)
    t, s = T.call('code', f, p, k)
    ds = [q.array for q in T.draws()]

    def ref(p, *u):
        st, clock, out, ts, alive = jnp.array([2., 1.]), 0., [], [], jnp.asarray(True)
        for i in range(ev):
            alive = alive & (st[1] > 0)
            inf = p[0] / 3. * st[0] * st[1]
            rec = p[1] * st[1]
            r = 1 - u[2 * i + 1]
            nxt = jnp.where(r * (inf + rec) <= inf, st + SIR_MOVES[0], st + SIR_MOVES[1])
            w = -jnp.log(1e-6 + u[2 * i] * (1 - 1e-6)) / (inf + rec)
            clock = jnp.where(alive, clock + w, clock)
            st = jnp.where(alive, nxt, st)
            out.append(jnp.where(alive, st, -1.))
            ts.append(jnp.where(alive, clock, -1.))
        return jnp.stack(out), jnp.stack(ts)
    rs, rt = T.call('ref', ref, p, *ds)
    T.eq('states', T.call('ms', lambda s, r: jnp.where(r < 0, r, s), s, rs), rs)
    T.eq('times', T.call('mt', lambda s, r: jnp.where(r < 0, r, s), t, rt), rt)


for tag, base, C in (('lv', lv.LotkaVolterra, lv.TransformedLotkaVolterra), ('sir', sir.SIR, sir.TransformedSIR)):
    @harness(P, f'{tag}_prior', about='rates have exponential priors, draws are never negative; in log rates the density has the change-of-variables term and draws are logs of the same draws')
    def _(T, base=base, C=C):
        d = base.dim
        x, lam, k = T.real('x', (d,)), T.real('lam', (d,), pos=True), T.key('k')

        def mk(c, lam):
            s = c()
            s.prior_rates = lam
            return s
        T.eq('potential', T.call('p', lambda x, l: mk(base, l).prior_potential(x), x, lam), T.call('rp', lambda x, l: jnp.sum(l * x), x, lam))
        T.eq('log potential', T.call('q', lambda x, l: mk(C, l).prior_potential(x), x, lam), T.call('rq', lambda x, l: jnp.sum(l * jnp.exp(x) - x), x, lam))
        a = T.call('s', lambda l, k: mk(base, l).prior_sample(k), lam, k)
        ds = T.draws()
        T.independent('draws', ds)
        T.true('draws', len(ds) == 1 and ds[0].kind == 'uniform')
        u = ds[0].array
        T.check('not negative', T.call('nn', lambda a: a >= 0, a), generic=False)
        T.check('exponential', T.call('ex', lambda a, l, u: jnp.abs(jnp.exp(-a * l) - u) <= 2e-6, a, lam, u))
        b = T.call('s2', lambda l, k: mk(C, l).prior_sample(k), lam, k)
        T.eq('log draw', T.call('e', lambda b: jnp.exp(b), b), a)
        T.eq('maps', T.call('m', lambda x: (C.constrain(x), C.unconstrain(jnp.exp(x))), x), (T.call('ee', jnp.exp, x), x))


@harness(P, 'lv_observed', about='the model observes the prey at all but the first time, and the log-rate model runs it at the exponentiated rates')
def _(T):
    x, s, k = T.real('x', (3,)), T.real('s', (2,), pos=True), T.key('k')
    t = np.array([0., 1., 2.5])

    def f(x, s, k):
        def sim(*a, **kw):
            p = kw.get('params', a[2] if len(a) > 2 else None)
            i = kw.get('initial_prey_pred', a[0] if a else None)
            key = kw.get('random_key', a[3] if len(a) > 3 else None)
            return uf('path', (2, 2))(p, i, random.normal(key, (1,)))
        old, lv.lotka_volterra_simulate = lv.lotka_volterra_simulate, sim
        try:
            out = []
            for C in (lv.LotkaVolterra, lv.TransformedLotkaVolterra):
                m = C()
                m.initial_prey_pred, m.times = s, t
                out.append(m.likelihood_sample(x, k))
            return out
        finally:
            lv.lotka_volterra_simulate = old
    a, b = T.call('code', f, x, s, k)
    z = [q.array for q in T.draws()]
    r = T.call('ref', lambda x, s, z, z2: (uf('path', (2, 2))(x, s, z)[:, 0], uf('path', (2, 2))(jnp.exp(x), s, z2)[:, 0]), x, s, z[0], z[-1])
    T.eq('prey', a, r[0])
    T.eq('prey at exponentiated rates', b, r[1])


@harness(P, 'sir_transformed', about='the log-rate epidemic runs at the exponentiated rates, in a population of all initial individuals')
def _(T):
    x, s, k = T.real('x', (2,)), T.real('s', (2,), pos=True), T.key('k')

    def f(x, s, k):
        def sim(i, p, pop, key, max_iter=0):
            return uf('path', (2, 2))(p, i, jnp.asarray(pop), random.normal(key, (1,))), jnp.zeros(2)
        old, sir.sir_simulate = sir.sir_simulate, sim
        try:
            out = []
            for C in (sir.SIR, sir.TransformedSIR):
                m = C()
                m.initial_si = s
                out.append(m.simulate_times_and_si(x, k)[0])
            return out
        finally:
            sir.sir_simulate = old
    a, b = T.call('code', f, x, s, k)
    z = [q.array for q in T.draws()]
    r = T.call('ref', lambda x, s, z, z2: (uf('path', (2, 2))(x, s, s[0] + s[1], z), uf('path', (2, 2))(jnp.exp(x), s, s[0] + s[1], z2)), x, s, z[0], z[-1])
    T.eq('rates', a, r[0])
    T.eq('exponentiated rates', b, r[1])


@harness(P, 'lorenz63', about='the Lorenz 63 vector field, and the flow over the time between the two states with the parameters of the model')
def _(T):
    x, t0, t1, p = T.real('x', (3,)), T.real('t0'), T.real('t1'), T.real('p', (3,))

    def field(x, s, r, b):
        return jnp.stack([s * (x[1] - x[0]), x[0] * (r - x[2]) - x[1], x[0] * x[1] - b * x[2]])
    T.eq('field', T.call('code', lambda x, t, p: l63.lorenz63_dynamics(x, t, *p), x, t0, p), T.call('ref', lambda x, p: field(x, *p), x, p))

    def f(x, t0, t1, p):
        with euler(l63):
            m = l63.Lorenz63.__new__(l63.Lorenz63)
            m.__dict__.update(sigma=p[0], rho=p[1], beta=p[2])
            return m.transition_function(x, t0, t1)
    T.eq('flow', T.call('flow', f, x, t0, t1, p), T.call('rflow', lambda x, t0, t1, p: x + (t1 - t0) * field(x, *p), x, t0, t1, p))


@contextlib.contextmanager
def euler(mod):
    """the integrator library is represented by one explicit Euler step over the requested interval."""
    def odeint(fun, y, t, *args, **kw):
        out = [y]
        for i in range(1, len(t)):
            out.append(out[-1] + (t[i] - t[i - 1]) * fun(out[-1], t[i - 1], *args))
        return jnp.stack(out)
    old, mod.odeint = mod.odeint, odeint
    try:
        yield
    finally:
        mod.odeint = old


for d in (4, 5, 6):
    @harness(P, f'lorenz96_d{d}', about='the Lorenz 96 vector field with cyclic neighbours, and its flow over the time between the two states')
    def _(T, d=d):
        x, t0, t1, F = T.real('x', (d,)), T.real('t0'), T.real('t1'), T.real('F')

        def field(x, F):
            return jnp.stack([(x[(i + 1) % d] - x[(i - 2) % d]) * x[(i - 1) % d] - x[i] + F for i in range(d)])
        T.eq('field', T.call('code', l96.lorenz96_dynamics, x, t0, F), T.call('ref', field, x, F))

        def f(x, t0, t1, F):
            with euler(l96):
                m = l96.Lorenz96.__new__(l96.Lorenz96)
                m.__dict__.update(dim=d, forcing_constant=F)
                return m.transition_function(x, t0, t1)
        T.eq('flow', T.call('flow', f, x, t0, t1, F), T.call('rflow', lambda x, t0, t1, F: x + (t1 - t0) * field(x, F), x, t0, t1, F))
