"""C22  backward simulation of smoothing paths from marginal particles."""
import jax
from jax import random
from .lib import *
from .c16 import pick
from .c19 import model
from mocat.src.ssm import backward

P = 'C22'


def trans(x0, t0, x1, t1):
    return uf('trans')(x0, t0, x1, t1)


def arg(g, lw):
    return jnp.argmax(g + lw)


def particles(T, L, n, d):
    x, lw, t = T.real('x', (L, n, d)), T.real('lw', (L, n)), T.real('t', (L,))
    return x, lw, t, T.key('k')


def make(x, lw, t):
    return cdict(value=x, log_weight=lw, t=t, y=jnp.zeros((x.shape[0], 1)), ess=jnp.ones(x.shape[0]))


for L, n, m, d in ((1, 2, 2, 1), (2, 2, 1, 1), (2, 2, 2, 1), (2, 2, None, 2), (3, 2, 2, 1), (2, 3, 1, 1), (4, 3, 2, 1)):
    @harness(P, f'full_T{L}_n{n}_{m}_d{d}',
             about='last states are drawn by the last weights, earlier ones by weight times transition density to the state already drawn; every draw has its own key')
    def _(T, L=L, n=n, m=m, d=d):
        x, lw, t, k = particles(T, L, n, d)

        def f(x, lw, t, k):
            p = make(x, lw, t)
            s = backward.backward_simulation(model(d, 1), p, k, **({} if m is None else dict(n_samps=m)))
            return s.value, s.num_transition_evals, s.t, hasattr(s, 'log_weight'), p.log_weight
        M = n if m is None else m
        v, ne, tt, has, lw2 = T.call('code', f, x, lw, t, k)
        ds = T.draws('gumbel')
        T.independent('draws', ds)
        T.true('draws', len(ds) == 1 + (L - 1) * M)

        def ref(x, lw, t, g):
            g = list(g)
            fin = g.pop(0)
            out = [jnp.stack([pick(x[-1], arg(fin[i], lw[-1])) for i in range(M)])]
            for s in range(L - 2, -1, -1):
                row = []
                for i in range(M):
                    w = jnp.stack([lw[s, j] - trans(x[s, j], t[s], out[0][i], t[s + 1]) for j in range(n)])
                    row.append(pick(x[s], arg(g.pop(0), w)))
                out.insert(0, jnp.stack(row))
            return jnp.stack(out)
        T.eq('paths', v, T.call('ref', ref, x, lw, t, [q.array for q in ds]))
        T.eq('evaluations', ne, np.array([0.] + [float(n * M)] * (L - 1)))
        T.eq('times', tt, t)
        T.true('equally weighted', not has)
        T.eq('given particles unchanged', lw2, lw)


for n, m, maxrej, bound0 in ((2, 1, 1, 'zero'), (2, 2, 1, 'zero'), (2, 2, 1, 'any'), (2, 1, 2, 'any'), (2, 2, 2, 'zero'), (2, 1, 3, 'zero'), (2, 2, 2, 'any'), (2, 2, 3, 'zero'), (3, 2, 2, 'zero'), (2, 3, 2, 'zero'), (2, 2, 4, 'any')):
    @harness(P, f'rejection_n{n}_{m}_max{maxrej}_{bound0}', cost=4, tier='quick' if m * n <= 6 and maxrej < 4 and (n, maxrej) != (3, 2) else 'thorough',
             about='rejection: propose by the weights, accept with density over one bound that no density seen exceeds, start again when it does; after the maximum draw exactly')
    def _(T, n=n, m=m, maxrej=maxrej, bound0=bound0):
        L, d = 2, 1
        x, lw, t, k = particles(T, L, n, d)
        b0 = T.real('b0', pos=True) if bound0 == 'any' else np.asarray(0.)
        infl = T.real('infl', lo=1.)

        def f(x, lw, t, k, b0, infl):
            s = backward.backward_simulation(model(d, 1), make(x, lw, t), k, m, maxrej, b0, infl)
            return s.value, s.num_transition_evals, hasattr(s, 'log_weight')
        v, ne, has = T.call('code', f, x, lw, t, k, b0, infl)
        ds = T.draws()
        T.independent('draws', ds)
        g, u = ([q.array for q in ds if q.kind == kd] for kd in ('gumbel', 'uniform'))
        T.true('draws', len(g) == 2 + maxrej * m and len(u) == 1 + (maxrej - 1) * m)

        def ref(x, lw, t, b0, infl, g, u):
            g, u = list(g), list(u)
            fin = g.pop(0)
            x1 = [pick(x[-1], arg(fin[i], lw[-1])) for i in range(m)]
            dens = lambda z, i: jnp.exp(-trans(z, t[0], x1[i], t[1]))
            g0, u0 = g.pop(0), u.pop(0)
            z = [pick(x[0], arg(g0[i], lw[0])) for i in range(m)]
            p = [dens(z[i], i) for i in range(m)]
            top = p[0]
            for q in p[1:]:
                top = jnp.maximum(top, q)
            bound = jnp.where(top > b0, top * infl, b0)
            todo = [u0[i] > p[i] / bound for i in range(m)]
            count = jnp.asarray(m * 1.)
            for _ in range(maxrej - 1):
                go = todo[0]
                for q in todo[1:]:
                    go = go | q
                count = count + sum(jnp.where(q, 1., 0.) for q in todo)
                top, new = 0., []
                for i in range(m):
                    c = pick(x[0], arg(g.pop(0), lw[0]))
                    p = dens(c, i)
                    ui = u.pop(0)
                    z[i] = jnp.where(todo[i], c, z[i])
                    top = jnp.where(todo[i] & (p > top), p, top)
                    new.append(todo[i] & (ui > p / bound))
                again = go & (top > bound)
                bound = jnp.where(again, top * infl, bound)
                todo = [again | q for q in new]
            for i in range(m):
                w = jnp.stack([lw[0, j] - trans(x[0, j], t[0], x1[i], t[1]) for j in range(n)])
                z[i] = jnp.where(todo[i], pick(x[0], arg(g.pop(0), w)), z[i])
            return jnp.stack([jnp.stack(z), jnp.stack(x1)]), count + n * sum(jnp.where(q, 1., 0.) for q in todo)
        r, c = T.call('ref', ref, x, lw, t, b0, infl, g, u)
        T.eq('paths', v, r)
        T.eq('evaluations', T.call('last', lambda a: (a[0] * 1., a[1] * 1.), ne), (np.asarray(0.), c))
        T.true('equally weighted', not has)


@harness(P, 'ffbs', about='filtering and backward simulation use unrelated keys; the paths are made of the filter particles')
def _(T):
    from mocat.src.ssm.filtering import BootstrapFilter
    y, t, k = T.real('y', (2, 1)), T.real('t', (2,)), T.key('k')

    def f(y, t, k):
        import jax._src.core as C
        old = C.Tracer.__dict__.get('block_until_ready')
        C.Tracer.block_until_ready = lambda s: s
        try:
            s = backward.forward_filtering_backward_simulation(model(1, 1), BootstrapFilter(), y, t, 2, k)
        finally:
            if old is None:
                del C.Tracer.block_until_ready
            else:
                C.Tracer.block_until_ready = old
        return s.value, s.t, s.y
    v, tt, yy = T.call('code', f, y, t, k)
    ds = T.draws()
    T.independent('draws', ds)
    z = [q.array for q in ds if q.kind == 'normal']
    T.true('draws', len(z) == 4)

    def ref(v, t, z):
        a = [uf('x0', (1,))(t[0], e) for e in z[:2]]
        return [jnp.any(jnp.stack([jnp.all(v[0, i] == q) for q in a])) for i in range(2)]
    for i, b in enumerate(T.call('in', ref, v, t, z)):
        T.check(f'first state of path {i} is a particle', b)
    T.eq('times', tt, t)
    T.eq('observations', yy, y)
