"""C06  Robbins-Monro adaptation."""
from .lib import *
from mocat.src.mcmc.metropolis import Metropolis, RMMetropolis
from mocat.src.mcmc.standard_mcmc import RandomWalk, Underdamped
from mocat.src.mcmc.sampler import MCMCSampler

P = 'C06'


class Flat(MCMCSampler):
    """arbitrary acceptance probability and tuning."""
    name = 'flat'

    def __init__(self, target, monotonicity, param='stepsize'):
        super().__init__()
        self.tuning = cdict(parameter=param, target=target, metric='alpha', monotonicity=monotonicity)
        setattr(self.parameters, param, 1.)

    def acceptance_probability(self, scenario, s, e, p, pe):
        return pe.given_alpha


def run_correct(log_update, mono, param, xalpha=False):
    def f(alpha, target, h, it, k, scale, expo, cut):
        s = Flat(target, mono, param)
        c = RMMetropolis(adapt_cut_off=cut, rm_stepsize_scale=scale, rm_stepsize_neg_exponent=expo, log_update=log_update)
        s.correction = c
        r, p = cdict(value=jnp.zeros(1)), cdict(value=jnp.ones(1))
        st, ex = s.startup(None, 5, r.copy(), cdict(random_key=k, parameters=cdict(**{param: h})))
        r.alpha = p.alpha = 1.
        setattr(r, param, h)
        setattr(p, param, h)
        mk = lambda: cdict(random_key=k, iter=it, parameters=cdict(**{param: h, 'other': 3.}), given_alpha=alpha)
        ns, ne = c(None, s, r, mk(), p, mk())
        return ns, ne, getattr(st, param)
    return f


for log_update in (True, False):
    for mono, tag in (('decreasing', 'dec'), ('increasing', 'inc'), (1, 'one')):
        for param in ('stepsize', 'gain'):
            if param == 'gain' and mono == 1:
                continue
            for ex, etag in ((2 / 3, '2_3'), (1., '1'), (.5, 'half')):
                if ex != 2 / 3 and (mono != 'decreasing' or param != 'stepsize'):
                    continue

                @harness(P, f'{"log" if log_update else "plain"}_{tag}_{param}_{etag}',
                         about='the tuned parameter moves by the diminishing step times the gap between the (corrected) metric and its target, '
                               'only up to the cut-off iteration')
                def _(T, log_update=log_update, mono=mono, param=param, ex=ex):
                    al, tg, h = T.xreal('alpha'), T.real('target', lo=0, hi=1), T.real('h', pos=True)
                    it, k, sc = T.real('iter', integer=True, lo=1), T.key('k'), T.real('scale', pos=True)
                    cut = T.real('cut', integer=True, lo=0)
                    ns, ne, h0 = T.call('correct', lambda *a: run_correct(log_update, mono, param)(*a[:6], ex, a[6]),
                                        al, tg, h, it, k, sc, cut)
                    u, = T.draws()

                    def ref(al, tg, h, it, sc, u, cut):
                        a = jnp.where(jnp.isnan(al), 0., al)
                        step = sc / (it * 1.) ** ex
                        gap = (a - tg) if mono == 'decreasing' else (tg - a)
                        new = h * jnp.exp(step * gap) if log_update else h + step * gap
                        new = jnp.where(it <= cut, new, h)
                        return new, a, jnp.where(u < a, jnp.ones(1), jnp.zeros(1))
                    new, a, v = T.call('ref', ref, al, tg, h, it, sc, u.array, cut)
                    T.eq('parameter', ne.parameters[param], new)
                    T.eq('recorded parameter', ns[param], new)
                    T.eq('other parameters untouched', ne.parameters.other, jnp.asarray(3.))
                    T.eq('alpha', ns.alpha, a)
                    T.eq('value', ns.value, v)
                    T.eq('recorded at start', h0, h)
                    T.fresh('key', ne.random_key, [u])
                    if log_update:
                        # finite metric: the adapted parameter stays positive
                        T.check('positive', T.call('pos', lambda a, n: ~jnp.isfinite(a) | (n > 0), al, new))


@harness(P, 'default_stepsize', about='with no step size given adaptation starts from 2.38^2/dimension')
def _(T):
    x, k = T.real('x', (3,)), T.key('k')

    def f(x, k):
        s = RandomWalk()
        st, ex = s.startup(uf_scenario(3, 1.), 5, cdict(value=x), cdict(random_key=k), correction=RMMetropolis)
        return st.stepsize, ex.parameters.stepsize
    a, b = T.call('startup', f, x, k)
    r = jnp.asarray(2.38 ** 2 / 3)
    T.eq('state', a, r)
    T.eq('extra', b, r)


@harness(P, 'random_walk_adaptive', about='adaptive random walk over two transitions: the second proposal uses the adapted step size')
def _(T):
    x, h, k, temp = T.real('x', (1,)), T.real('h', pos=True), T.key('k'), T.real('temp', lo=0)

    def f(x, h, k, temp):
        scen = uf_scenario(1, temp)
        s = RandomWalk(stepsize=1.)
        st, ex = s.startup(scen, 10, cdict(value=x), cdict(random_key=k, parameters=cdict(stepsize=h)), correction=RMMetropolis)
        st, ex = s.update(scen, st, ex)
        a = st.copy(), ex.parameters.stepsize
        st, ex = s.update(scen, st, ex)
        return a, st, ex.parameters.stepsize, ex.random_key
    (s1, h1), s2, h2, nk = T.call('steps', f, x, h, k, temp)
    ds = T.draws()
    nz, us = [d for d in ds if d.kind == 'normal'], [d for d in ds if d.kind == 'uniform']
    T.true('draws', len(nz) == 2 and len(us) == 2)
    T.independent('draws', ds)
    T.fresh('key', nk, ds)

    def one(x, h, temp, z, u, it):
        pot = lambda v: uf('prior')(v) + temp * uf('lik')(v)
        y = x + z * jnp.sqrt(h)
        lr = pot(x) - pot(y)
        a = jnp.where(lr >= 0, 1., jnp.exp(lr))
        return jnp.where(u < a, y, x), a, h * jnp.exp((a - .234) / it ** (2 / 3))
    v, a, hh = T.call('ref1', lambda *z: one(*z, 1.), x, h, temp, nz[0].array, us[0].array)
    T.eq('value 1', s1.value, v)
    T.eq('step 1', h1, hh)
    v, a, hh = T.call('ref2', lambda *z: one(*z, 2.), s1.value, h1, temp, nz[1].array, us[1].array)
    T.eq('value 2', s2.value, v)
    T.eq('alpha 2', s2.alpha, a)
    T.eq('step 2', h2, hh)
    T.eq('recorded step', s2.stepsize, h2)
