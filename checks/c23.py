"""C23  online (fixed-lag) smoothing."""
import jax
from jax import random
from .lib import *
from .c16 import pick, resample_ref, ess_of
from .c19 import model
from .c20 import step
from .c22 import trans, arg
from mocat.src.ssm import online_smoothing
from mocat.src.ssm.filtering import BootstrapFilter

P = 'C23'


def stitch_ref(x, lw, t, s, pick_index):
    """x: paths; state s of each path i is kept, the rest is that of path j with probability w_j p(x_{s+1}^j | x_s^i) / p(x_{s+1}^j | x_s^j)."""
    L, n = x.shape[:2]
    out = []
    for i in range(n):
        w = jnp.stack([lw[j] + trans(x[s, j], t[s], x[s + 1, j], t[s + 1]) - trans(x[s, i], t[s], x[s + 1, j], t[s + 1]) for j in range(n)])
        j = pick_index(i, w)
        out.append(jnp.stack([x[q, i] if q <= s else pick(x[q], j) for q in range(L)]))
    return jnp.stack(out, 1)


for lag, L, n, wd in ((1, 2, 2, 1), (2, 2, 2, 1), (3, 2, 2, 1), (1, 1, 2, 2), (2, 3, 2, 1), (1, 1, 3, 1), (2, 3, 3, 1), (2, 4, 2, 2)):
    @harness(P, f'filter_lag{lag}_T{L}_n{n}', cost=2,
             about='without backward simulation: resample whole paths when weighted, propose, weigh, then join each old path to a new end by weight times ratio of transition densities; '
                   'paths no longer than the lag keep their weights')
    def _(T, lag=lag, L=L, n=n, wd=wd):
        d = 1
        x, lw, y, t, k = T.real('x', (L, n, d)), T.real('lw', (n,)), T.real('y', (L, 1)), T.real('t', (L,)), T.key('k')
        y1, t1 = T.real('y1', (1,)), T.real('t1')

        def f(x, lw, y, t, y1, t1, k):
            p = cdict(value=x, log_weight=lw if wd == 1 else lw[None], y=y, t=t, ess=jnp.ones(1))
            s = online_smoothing.propagate_particle_smoother(model(d, 1), BootstrapFilter(), p, y1, t1, k, lag, False)
            return s.value, s.log_weight, s.y, s.t, s.ess, s.num_transition_evals
        v, w, yy, tt, ess, ne = T.call('code', f, x, lw, y, t, y1, t1, k)
        ds = T.draws()
        T.independent('draws', ds)
        g, z = ([q.array for q in ds if q.kind == kd] for kd in ('gumbel', 'normal'))
        st = L + 1 - lag >= 1
        T.true('draws', len(z) == n and len(g) == 1 + (n if st else 0))

        def ref(x, lw, y, t, y1, t1, g, z):
            idx = resample_ref(g[0], lw)
            weighted = ess_of(lw) < n - 1e-3
            xs = jnp.where(weighted, jnp.stack([jnp.stack([pick(x[q], j) for j in idx]) for q in range(L)]), x)
            a, b = zip(*[step('bootstrap', d, xs[-1, i], t[-1], y1, t1, z[i]) for i in range(n)])
            xs, b, t2 = jnp.concatenate([xs, jnp.stack(a)[None]]), jnp.stack(b), jnp.append(t, t1)
            if st:
                return stitch_ref(xs, b, t2, L - lag, lambda i, w: arg(g[1 + i], w)), jnp.zeros(n), ess_of(b), jnp.append(y, y1[None], 0), t2
            return xs, b, ess_of(b), jnp.append(y, y1[None], 0), t2
        r = T.call('ref', ref, x, lw, y, t, y1, t1, g, z)
        for nm, a, b in zip(('paths', 'log weight', 'effective size', 'observations', 'times'), (v, w, ess, yy, tt), r):
            T.eq(nm, a, b)
        T.eq('evaluations', T.call('ne', lambda q: q[-1] * 1., ne), np.asarray(n * n * 1. if st else 0.))


for lag, L, n in ((1, 1, 2), (2, 1, 2), (1, 2, 2), (2, 2, 2), (1, 1, 3), (2, 3, 2)):
    @harness(P, f'backward_lag{lag}_T{L}_n{n}', cost=4, tier='quick',
             about='with backward simulation: the marginal filter makes a step, recent paths are simulated backwards from it and joined to the kept past; results are equally weighted')
    def _(T, lag=lag, L=L, n=n):
        d = 1
        x, mx, lw, y, t, k = T.real('x', (L, n, d)), T.real('mx', (L, n, d)), T.real('lw', (L, n)), T.real('y', (L, 1)), T.real('t', (L,)), T.key('k')
        y1, t1, me = T.real('y1', (1,)), T.real('t1'), T.real('ess', (L,))

        def f(x, mx, lw, y, t, me, y1, t1, k):
            p = cdict(value=x, log_weight=jnp.zeros(n), y=y, t=t, ess=jnp.ones(1), num_transition_evals=jnp.array([5.]))
            p.marginal_filter = cdict(value=mx, log_weight=lw, y=y, t=t, ess=me)
            s = online_smoothing.propagate_particle_smoother(model(d, 1), BootstrapFilter(), p, y1, t1, k, lag, True)
            q = s.marginal_filter
            return s.value, s.log_weight, s.y, s.t, s.ess, s.num_transition_evals, q.value, q.log_weight, q.ess, q.t, q.y
        v, w, yy, tt, ess, ne, *mf = T.call('code', f, x, mx, lw, y, t, me, y1, t1, k)
        ds = T.draws()
        T.independent('draws', ds)
        g, z = ([q.array for q in ds if q.kind == kd] for kd in ('gumbel', 'normal'))
        st = L + 1 - lag >= 1
        first = max(L - lag, 0)
        T.true('draws', len(z) == n and len(g) == 2 + (L - first) * n + (n if st else 0))

        def ref(x, mx, lw, y, t, me, y1, t1, g, z):
            g = list(g)
            idx = resample_ref(g.pop(0), lw[-1])
            do = me[-1] < .5 * n
            mx = jnp.where(do, mx.at[-1].set(jnp.stack([pick(mx[-1], j) for j in idx])), mx)
            lw = jnp.where(do, lw.at[-1].set(0.), lw)
            a, b = zip(*[step('bootstrap', d, mx[-1, i], t[-1], y1, t1, z[i]) for i in range(n)])
            b = lw[-1] + jnp.stack(b)
            mx, lw, t2, y2 = jnp.concatenate([mx, jnp.stack(a)[None]]), jnp.concatenate([lw, b[None]]), jnp.append(t, t1), jnp.append(y, y1[None], 0)
            fin = g.pop(0)
            paths = [jnp.stack([pick(mx[-1], arg(fin[i], lw[-1])) for i in range(n)])]
            for s in range(L - 1, first - 1, -1):
                row = []
                for i in range(n):
                    q = jnp.stack([lw[s, j] - trans(mx[s, j], t2[s], paths[0][i], t2[s + 1]) for j in range(n)])
                    row.append(pick(mx[s], arg(g.pop(0), q)))
                paths.insert(0, jnp.stack(row))
            rec = jnp.stack(paths)
            if st:
                out = []
                s = first
                for i in range(n):
                    q = jnp.stack([trans(rec[0, j], t2[s], rec[1, j], t2[s + 1]) - trans(x[s, i], t2[s], rec[1, j], t2[s + 1]) for j in range(n)])
                    j = arg(g.pop(0), q)
                    out.append(jnp.stack([x[q_, i] for q_ in range(s + 1)] + [pick(rec[q_], j) for q_ in range(1, len(paths))]))
                val = jnp.stack(out, 1)
            else:
                val = rec
            e = jnp.append(me, ess_of(b))
            return val, jnp.zeros(n), y2, t2, e[-1], mx, lw, e, t2, y2
        r = T.call('ref', ref, x, mx, lw, y, t, me, y1, t1, g, z)
        for nm, a, b in zip(('paths', 'log weight', 'observations', 'times', 'effective size', 'filter', 'filter weights', 'filter effective size', 'filter times',
                             'filter observations'), (v, w, yy, tt, ess, *mf), r):
            T.eq(nm, a, b)
        T.eq('evaluations', ne, np.array([5., n * n * (L - first) + (n * n if st else 0.)]))


@harness(P, 'first_step', about='the marginal filter starts from the given particles')
def _(T):
    n, d = 2, 1
    x, lw, y, t, k, y1, t1 = T.real('x', (1, n, d)), T.real('lw', (1, n)), T.real('y', (1, 1)), T.real('t', (1,)), T.key('k'), T.real('y1', (1,)), T.real('t1')

    def f(x, lw, y, t, y1, t1, k):
        out = []
        for given in (False, True):
            p = cdict(value=x, log_weight=lw, y=y, t=t, ess=ess_of(lw[0])[None])
            if given:
                p.marginal_filter = p.copy()
            s = online_smoothing.propagate_particle_smoother(model(d, 1), BootstrapFilter(), p, y1, t1, k, 3, True)
            out.append((s.value, s.log_weight, s.t, s.y, s.marginal_filter.value, s.marginal_filter.log_weight, s.marginal_filter.ess))
        return out
    a, b = T.call('code', f, x, lw, y, t, y1, t1, k)
    T.eq('same', a, b)


for maxrej, n in ((1, 2), (2, 2), (3, 2)):
    @harness(P, f'rejection_n{n}_max{maxrej}', cost=5,
             about='joining by rejection: propose by the weights, accept with density over one bound no density seen exceeds, after the maximum draw exactly')
    def _(T, maxrej=maxrej, n=n):
        d, L, lag = 1, 1, 1
        x, lw, y, t, k = T.real('x', (L, n, d)), np.zeros(n), T.real('y', (L, 1)), T.real('t', (L,)), T.key('k')
        y1, t1, infl = T.real('y1', (1,)), T.real('t1'), T.real('infl', lo=1.)

        def f(x, lw, y, t, y1, t1, k, infl):
            p = cdict(value=x, log_weight=lw, y=y, t=t, ess=jnp.ones(1))
            s = online_smoothing.propagate_particle_smoother(model(d, 1), BootstrapFilter(), p, y1, t1, k, lag, False, maximum_rejections=maxrej, bound_inflation=infl)
            return s.value, s.log_weight, s.num_transition_evals[-1] * 1.
        v, w, ne = T.call('code', f, x, lw, y, t, y1, t1, k, infl)
        ds = T.draws()
        T.independent('draws', ds)
        g, u, z = ([q.array for q in ds if q.kind == kd] for kd in ('gumbel', 'uniform', 'normal'))

        def ref(x, t, y1, t1, infl, g, u, z):
            g, u = list(g), list(u)
            a, b = zip(*[step('bootstrap', d, x[-1, i], t[-1], y1, t1, z[i]) for i in range(n)])
            lw = jnp.stack([b[j] + trans(x[-1, j], t[-1], a[j], t1) for j in range(n)])
            X = jnp.stack(a)
            dens = lambda i, j: jnp.exp(-trans(x[-1, i], t[-1], pick(X, j), t1))
            g0, u0 = g.pop(0), u.pop(0)
            c = [arg(g0[i], lw) for i in range(n)]
            p = [dens(i, c[i]) for i in range(n)]
            bound = jnp.maximum(p[0], p[1]) * infl
            todo = [u0[i] > p[i] / bound for i in range(n)]
            count = jnp.asarray(n * 1.)
            for _ in range(maxrej - 1):
                go = todo[0] | todo[1]
                count = count + sum(jnp.where(q, 1., 0.) for q in todo)
                top, new = 0., []
                for i in range(n):
                    ci = arg(g.pop(0), lw)
                    pi, ui = dens(i, ci), u.pop(0)
                    c[i] = jnp.where(todo[i], ci, c[i])
                    top = jnp.where(todo[i] & (pi > top), pi, top)
                    new.append(todo[i] & (ui > pi / bound))
                again = go & (top > bound)
                bound = jnp.where(again, top * infl, bound)
                todo = [again | q for q in new]
            for i in range(n):
                q = jnp.stack([lw[j] - trans(x[-1, i], t[-1], a[j], t1) for j in range(n)])
                c[i] = jnp.where(todo[i], arg(g.pop(0), q), c[i])
            return jnp.stack([x[-1], jnp.stack([pick(X, j) for j in c])]), count + n * sum(jnp.where(q, 1., 0.) for q in todo)
        r, cnt = T.call('ref', ref, x, t, y1, t1, infl, g, u, z)
        T.eq('paths', v, r)
        T.eq('log weight', w, np.zeros(n))
        T.eq('evaluations', ne, cnt)
