"""C20  particle filters: initial particles, weights, resampling, one step and whole runs."""
import jax
from jax import random
from .lib import *
from .c16 import resample_ref, pick, ess_of
from .c19 import model
from mocat.src.ssm import filtering
from mocat.src.ssm.filtering import ParticleFilter, BootstrapFilter

P = 'C20'


class Guided(ParticleFilter):
    """arbitrary proposal: sample and potential are unrelated symbols, so every term of the weight is visible."""
    def initial_sample(self, ssm_scenario, y, t, random_key):
        d = ssm_scenario.dim
        return uf('q0', (d,))(y, t, random.normal(random_key, (d,)))

    def initial_log_weight(self, ssm_scenario, x, y, t):
        return uf('w0')(x, y, t)

    def proposal_sample(self, ssm_scenario, x_previous, t_previous, y_new, t_new, random_key):
        d = ssm_scenario.dim
        return uf('q', (d,))(x_previous, t_previous, y_new, t_new, random.normal(random_key, (d,)))

    def proposal_potential(self, ssm_scenario, x_previous, t_previous, x_new, y_new, t_new):
        return uf('qp')(x_previous, t_previous, x_new, y_new, t_new)


def first(kind, d, y, t, e):
    if kind == 'bootstrap':
        x = uf('x0', (d,))(t, e)
        return x, -uf('lik')(x, y, t)
    x = uf('q0', (d,))(y, t, e)
    return x, uf('w0')(x, y, t)


def step(kind, d, x, t, y1, t1, e):
    """new particle and increment of its log weight."""
    if kind == 'bootstrap':
        x1 = uf('x1', (d,))(x, t, t1, e)
        return x1, -uf('lik')(x1, y1, t1)
    x1 = uf('q', (d,))(x, t, y1, t1, e)
    return x1, -uf('trans')(x, t, x1, t1) - uf('lik')(x1, y1, t1) + uf('qp')(x, t, x1, y1, t1)


FILTERS = dict(bootstrap=BootstrapFilter, guided=Guided)


def fields(s):
    return dict(value=s.value, log_weight=s.log_weight, t=s.t, y=s.y, ess=s.ess)


def by_kind(T, *kinds):
    ds = T.draws()
    return ds, [[q.array for q in ds if q.kind == k] for k in kinds]


for kind in FILTERS:
    for n, d, do in ((2, 1, 1), (3, 2, 1), (2, 1, 2)):
        @harness(P, f'start_{kind}_n{n}_d{d}_obs{do}', about='particles start as independent draws weighed by the first observation; effective size is that of the weights')
        def _(T, kind=kind, n=n, d=d, do=do):
            y, t, k = T.real('y', (do,)), T.real('t'), T.key('k')
            s = T.call('code', lambda y, t, k: fields(filtering.initiate_particles(model(d, do), FILTERS[kind](), n, k, y, t)), y, t, k)
            ds, (z,) = by_kind(T, 'normal')
            T.true('one draw per particle', len(ds) == n)
            T.independent('draws', ds)

            def ref(y, t, z):
                xs, lw = zip(*[first(kind, d, y, t, e) for e in z])
                return jnp.stack(xs)[None], jnp.stack(lw)[None], ess_of(jnp.stack(lw))[None]
            x, lw, ess = T.call('ref', ref, y, t, z)
            T.eq('value', s['value'], x)
            T.eq('log weight', s['log_weight'], lw)
            T.eq('effective size', s['ess'], ess)
            T.eq('time', s['t'], T.call('t', lambda t: t[None], t))
            T.eq('observation', s['y'], T.call('y', lambda y: y[None], y))


@harness(P, 'start_unobserved', about='without an observation all particles have the same weight; without a time the time is zero')
def _(T):
    n, t, k = 3, T.real('t'), T.key('k')

    def f(t, k):
        s = filtering.initiate_particles(model(2, 1), BootstrapFilter(), n, k, None, t)
        u = filtering.initiate_particles(model(2, 1), BootstrapFilter(), n, k, jnp.zeros(1), 0.)
        return s.value, s.log_weight, s.ess, s.t, u.t
    x, lw, ess, tt, t0 = T.call('code', f, t, k)
    ds, (z,) = by_kind(T, 'normal')
    T.eq('value', x, T.call('ref', lambda t, z: jnp.stack([uf('x0', (2,))(t, e) for e in z])[None], t, z[:n]))
    T.eq('log weight', lw, np.zeros((1, n)))
    T.eq('effective size', ess, np.full((1,), float(n)))
    T.eq('time', tt, T.call('t', lambda t: t[None], t))


for mode in ('flat', 'full', 'latest'):
    for n, d in ((2, 1), (2, 2), (3, 1)):
        @harness(P, f'resample_{mode}_n{n}_d{d}', about='resampling draws particles in proportion to the latest weights, whole paths (or only the latest states) together, resets only the latest weights')
        def _(T, mode=mode, n=n, d=d):
            L = 1 if mode == 'flat' else 2
            x, lw, k = T.real('x', (L, n, d)), T.real('lw', (L, n)), T.key('k')

            def f(x, lw, k):
                p = cdict(value=x[0] if mode == 'flat' else x, log_weight=lw[0] if mode == 'flat' else lw)
                s = filtering.resample_particles(p, k, mode != 'latest')
                return jnp.reshape(s.value, x.shape), jnp.reshape(s.log_weight, lw.shape), jnp.reshape(p.value, x.shape), jnp.reshape(p.log_weight, lw.shape)
            o, w, x_in, w_in = T.call('code', f, x, lw, k)
            ds, (g,) = by_kind(T, 'gumbel')
            T.true('one choice', len(ds) == 1)

            def ref(x, lw, g):
                i = resample_ref(g, lw[-1])
                new = jnp.stack([jnp.stack([pick(x[t], j) for j in i]) for t in range(L)])
                return new if mode != 'latest' else new.at[0].set(x[0]), lw.at[-1].set(0.)
            r = T.call('ref', ref, x, lw, g[0])
            T.eq('value', o, r[0])
            T.eq('log weight', w, r[1])
            T.eq('given particles unchanged', (x_in, w_in), (x, lw))


for kind, n, d, do, full in (('guided', 2, 1, 1, True), ('guided', 2, 1, 1, False), ('bootstrap', 2, 2, 1, True), ('bootstrap', 3, 1, 1, False), ('guided', 2, 1, 2, True), ('bootstrap', 4, 2, 1, True), ('guided', 4, 1, 1, True)):
    @harness(P, f'propagate_{kind}_n{n}_d{d}_obs{do}' + ('' if full else '_latest'),
             about='one step: resample when the effective size is below its share, draw from the proposal, weight grows by target over proposal, history is kept')
    def _(T, kind=kind, n=n, d=d, do=do, full=full):
        L = 2
        x, lw, y, t = T.real('x', (L, n, d)), T.real('lw', (L, n)), T.real('y', (L, do)), T.real('t', (L,))
        ess, y1, t1, thr, k = T.real('ess', (L,)), T.real('y1', (do,)), T.real('t1'), T.real('thr', lo=0, hi=1), T.key('k')

        def f(x, lw, y, t, ess, y1, t1, thr, k):
            p = cdict(value=x, log_weight=lw, y=y, t=t, ess=ess)
            return fields(filtering.propagate_particle_filter(model(d, do), FILTERS[kind](), p, y1, t1, k, thr, full))
        s = T.call('code', f, x, lw, y, t, ess, y1, t1, thr, k)
        ds, (g, z) = by_kind(T, 'gumbel', 'normal')
        T.true('draws', len(g) == 1 and len(z) == n)
        T.independent('draws', ds)

        def ref(x, lw, y, t, ess, y1, t1, thr, g, z):
            do_ = ess[-1] < thr * n
            idx = resample_ref(g, lw[-1])
            new = jnp.stack([jnp.stack([pick(x[q], j) for j in idx]) if full or q == L - 1 else x[q] for q in range(L)])
            xs = jnp.where(do_, new, x)
            w0 = jnp.where(do_, 0., lw[-1])
            a, b = zip(*[step(kind, d, xs[-1, i], t[-1], y1, t1, z[i]) for i in range(n)])
            w1 = w0 + jnp.stack(b)
            return xs, jnp.stack(a), lw.at[-1].set(w0), w1, ess_of(w1)
        xs, x1, w0, w1, e1 = T.call('ref', ref, x, lw, y, t, ess, y1, t1, thr, g[0], z)
        split = lambda a: (T.call('h', lambda a: a[:-1], a), T.call('l', lambda a: a[-1], a))
        for nm, a, b in (('value', 'value', (xs, x1)), ('log weight', 'log_weight', (w0, w1)), ('observations', 'y', (y, y1)), ('times', 't', (t, t1)),
                         ('effective size', 'ess', (ess, e1))):
            h, l = split(s[a])
            T.eq(nm + ' of the past', h, b[0])
            T.eq(nm, l, b[1])


for kind, n, d, L, given in (('bootstrap', 2, 1, 2, False), ('guided', 2, 2, 2, False), ('guided', 2, 1, 1, True), ('bootstrap', 2, 1, 3, False), ('bootstrap', 3, 1, 3, False), ('guided', 2, 1, 4, False), ('bootstrap', 2, 1, 5, False)):
    @harness(P, f'run_{kind}_n{n}_d{d}_T{L}' + ('_given' if given else ''), tier='quick',
             about='a whole run is the start followed by one such step per further observation, each from unused keys; observations may be given flat')
    def _(T, kind=kind, n=n, d=d, L=L, given=given):
        y, t, k = T.real('y', (L,)), T.real('t', (L,)), T.key('k')
        x0, w0, y0, t0 = T.real('x0', (n, d)), T.real('w0', (n,)), T.real('y0', (1,)), T.real('t0')
        thr = T.real('thr', lo=0, hi=1)
        if given:
            T.assume(T.call('w', lambda w: w[0] == 0, w0))

        def f(y, t, k, thr, x0, w0, y0, t0):
            init = cdict(value=x0[None], log_weight=w0[None], y=y0[None], t=t0[None], ess=ess_of(w0)[None]) if given else None
            return fields(filtering.run_particle_filter_for_marginals(model(d, 1), FILTERS[kind](), y, t, k, None if given else n, initial_sample=init, ess_threshold=thr))
        s = T.call('code', f, y, t, k, thr, x0, w0, y0, t0)
        steps = L if given else L - 1
        ds, (g, z) = by_kind(T, 'gumbel', 'normal')
        T.true('draws', len(g) == steps and len(z) == (steps if given else L) * n)
        T.independent('draws', ds)

        def ref(y, t, thr, x0, w0, y0, t0, g, z):
            z, y = list(z), y[:, None]
            if given:
                ys, ts, xs, ws = [y0], [t0], [x0], [w0]
                todo = range(L)
            else:
                a, b = zip(*[first(kind, d, y[0], t[0], z.pop(0)) for _ in range(n)])
                ys, ts, xs, ws = [y[0]], [t[0]], [jnp.stack(a)], [jnp.stack(b)]
                todo = range(1, L)
            es = [ess_of(ws[0])]
            for c, i in enumerate(todo):
                do_ = es[-1] < thr * n
                idx = resample_ref(g[c], ws[-1])
                x = jnp.where(do_, jnp.stack([pick(xs[-1], j) for j in idx]), xs[-1])
                w = jnp.where(do_, 0., ws[-1])
                a, b = zip(*[step(kind, d, x[j], ts[-1], y[i], t[i], z.pop(0)) for j in range(n)])
                xs.append(jnp.stack(a)); ws.append(w + jnp.stack(b)); ys.append(y[i]); ts.append(t[i]); es.append(ess_of(ws[-1]))
            return [jnp.stack(v) for v in (xs, ws, ts, ys, es)]
        r = T.call('ref', ref, y, t, thr, x0, w0, y0, t0, g, z)
        for nm, a, b in zip(('value', 'log_weight', 't', 'y', 'ess'), [s[q] for q in ('value', 'log_weight', 't', 'y', 'ess')], r):
            T.eq(nm, a, b)
