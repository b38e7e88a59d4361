"""C01  Metropolis correction."""
import jax.numpy as jnp
from jax import random
from engine.harness import harness
from .lib import *
from mocat.src.mcmc.metropolis import Metropolis, mh_acceptance_probability
from mocat.src.mcmc.sampler import MCMCSampler, Uncorrected, check_correction

P = 'C01'


class AlphaSampler(MCMCSampler):
    """Sampler whose acceptance probability is whatever the proposed state carries."""
    name = 'alpha sampler'

    def acceptance_probability(self, scenario, reject_state, reject_extra, proposed_state, proposed_extra):
        return proposed_extra.given_alpha


def states(T, d=2):
    r = cdict(value=T.real('rv', (d,)), potential=T.real('rp'), alpha=T.real('ra', lo=0, hi=1), flag=T.real('rf'))
    p = cdict(value=T.real('pv', (d,)), potential=T.real('pp'), alpha=T.real('pa', lo=0, hi=1), flag=T.real('pf'))
    return r, p


@harness(P, 'accept_reject', about='one accept/reject decision for an arbitrary acceptance value (real, inf or NaN), '
                                   'arbitrary states, extras and key')
def _(T):
    al = T.xreal('alpha')
    r, p = states(T)
    kr, kp = T.key('kr'), T.key('kp')
    re = cdict(random_key=kr, iter=T.real('ri', integer=True, lo=1), parameters=cdict(stepsize=T.real('rs', pos=True)),
               extra=T.real('rx'), given_alpha=T.real('rg'))
    pe = cdict(random_key=kp, iter=T.real('pi', integer=True, lo=1), parameters=cdict(stepsize=T.real('ps', pos=True)),
               extra=T.real('px'), given_alpha=al)

    def f(r, re, p, pe):
        return Metropolis().correct(None, AlphaSampler(), r, re, p, pe)
    ns, ne = T.call('correct', f, r, re, p, pe)
    u, = T.draws()
    T.true('one uniform draw', u.kind == 'uniform' and u.shape == ())

    def ref(r, re, p, pe, u, al):
        a = jnp.where(jnp.isnan(al), 0., al)
        acc = u < a
        pick = lambda x, y: jnp.where(acc, x, y)
        return (cdict(value=pick(p.value, r.value), potential=pick(p.potential, r.potential), alpha=a,
                      flag=pick(p.flag, r.flag)),
                cdict(iter=pick(pe.iter, re.iter), extra=pick(pe.extra, re.extra),
                      stepsize=pick(pe.parameters.stepsize, re.parameters.stepsize)))
    rs, rx = T.call('ref', ref, r, re, p, pe, u.array, al)
    for k in ('value', 'potential', 'alpha', 'flag'):
        T.eq(f'state.{k}', ns[k], rs[k])
    T.eq('extra.iter', ne.iter, rx.iter)
    T.eq('extra.extra', ne.extra, rx.extra)
    T.eq('extra.stepsize', ne.parameters.stepsize, rx.stepsize)
    T.fresh('returned key', ne.random_key, [u])


@harness(P, 'mh_probability', about='Metropolis-Hastings ratio with arbitrary proposal densities')
def _(T):
    q = uf('q', ())

    class S(MCMCSampler):
        name = 's'

        def proposal_potential(self, scenario, a, ea, b, eb):
            return q(a.value, ea.tag, b.value, eb.tag)
    r = cdict(value=T.real('rv', (2,)), potential=T.real('rp'))
    p = cdict(value=T.real('pv', (2,)), potential=T.real('pp'))
    re, pe = cdict(tag=T.real('rt')), cdict(tag=T.real('pt'))
    a = T.call('mh', lambda r, re, p, pe: mh_acceptance_probability(S(), None, r, re, p, pe), r, re, p, pe)

    def ref(r, re, p, pe):
        log_ratio = (r.potential + q(r.value, re.tag, p.value, pe.tag)) - (p.potential + q(p.value, pe.tag, r.value, re.tag))
        return jnp.where(log_ratio >= 0, 1., jnp.exp(log_ratio))
    T.eq('alpha', a, T.call('ref', ref, r, re, p, pe))


@harness(P, 'mh_correct', about='full Metropolis-Hastings decision, potentials possibly infinite or NaN')
def _(T):
    class S(MCMCSampler):
        name = 's'
        acceptance_probability = mh_acceptance_probability

        def proposal_potential(self, scenario, a, ea, b, eb):
            return a.value * b.value ** 2
    r = cdict(value=T.real('rv'), potential=T.xreal('rp'))
    p = cdict(value=T.real('pv'), potential=T.xreal('pp'))
    ke = T.key('k')

    def f(r, p, k):
        e = cdict(random_key=k)
        return Metropolis().correct(None, S(), r, e, p, e)[0]
    ns = T.call('correct', f, r, p, ke)
    u, = T.draws()

    def ref(r, p, u):
        lr = r.potential - p.potential + r.value * p.value ** 2 - p.value * r.value ** 2
        a = jnp.where(jnp.isnan(lr), 0., jnp.where(lr >= 0, 1., jnp.exp(lr)))
        return jnp.where(u < a, p.value, r.value), a
    v, a = T.call('ref', ref, r, p, u.array)
    T.eq('value', ns.value, v)
    T.eq('alpha', ns.alpha, a)
    T.check('alpha in [0,1]', T.call('range', lambda a: (a >= 0) & (a <= 1), ns.alpha))
    T.check('never moves to an infinite potential',
            T.call('inf', lambda p, r, v: ~(p.potential == jnp.inf) | (v.value == r.value), p, r, ns), generic=False)


@harness(P, 'uncorrected', about='a sampler without correction keeps every proposal')
def _(T):
    r, p = states(T)
    k = T.key('k')

    def f(r, p, k):
        c = check_correction(None)
        assert isinstance(c, Uncorrected)
        e = cdict(random_key=k)
        return c(None, AlphaSampler(), r, e, p, e)[0]
    ns = T.call('correct', f, r, p, k)
    for n in ('value', 'potential', 'alpha', 'flag'):
        T.eq(n, ns[n], p[n])


@harness(P, 'update_order', about='one transition of an arbitrary sampler: refresh, then propose, then correct')
def _(T):
    refresh, prop, acc = uf('refresh', (2,)), uf('prop', (2,)), uf('acc')
    T.uf_range('acc', 0., 1.)

    class S(MCMCSampler):
        name = 's'
        correction = Metropolis

        def always(self, scenario, s, e):
            s.value = refresh(s.value)
            s.seen_iter = e.iter
            return s, e

        def proposal(self, scenario, s, e):
            p = s.copy()
            p.value = prop(s.value)
            return p, e

        def acceptance_probability(self, scenario, s, e, p, pe):
            return acc(s.value, p.value)
    x = T.real('x', (2,))
    k = T.key('k')
    it = T.real('iter', integer=True, lo=0)

    def f(x, k, it):
        s = S()
        st, ex = s.startup(None, 3, cdict(value=x), cdict(random_key=k, iter=it))
        st.seen_iter = it
        return s.update(None, st, ex)
    ns, ne = T.call('update', f, x, k, it)
    u, = T.draws()

    def ref(x, it, u):
        m = refresh(x)
        p = prop(m)
        a = acc(m, p)
        return jnp.where(u < a, p, m), it + 1, a
    v, i, a = T.call('ref', ref, x, it, u.array)
    T.eq('value', ns.value, v)
    T.eq('alpha', ns.alpha, a)
    T.eq('iter', ne.iter, i)
    T.eq('iter seen by the refresh step', ns.seen_iter, i)
