"""C11  Gaussian models: the covariance given is the covariance of both the density and the draws."""
import jax
from .lib import *
from .lib import tri, L2P
from mocat.src.utils import reset_covariance, gaussian_potential
from mocat.src.abc.scenarios.linear_gaussian import LinearGaussian as ABCLinearGaussian
from mocat.src.ssm.linear_gaussian.linear_gaussian import LinearGaussian, TimeHomogenousLinearGaussian
from mocat.src.ssm.nonlinear_gaussian import NonLinearGaussian
from mocat.src.ssm.scenarios.stochastic_volatility import StochasticVolatility

P = 'C11'


def ref_pot(w, logdet, d):
    """-log N(m + L w; m, L L^T)."""
    return .5 * jnp.sum(w * w) + logdet + d * L2P / 2


def logdet(L):
    return jnp.log(jnp.prod(jnp.diag(L)))


def check_pair(T, name, fn, args, L, w, d, kind='normal'):
    """fn(*args, w, key) -> (potential at mean + L w, potential at a draw)."""
    k = T.key(f'k_{name}')
    at, drawn = T.call(name, fn, *args, L, w, k)
    z, = T.draws(kind)
    T.eq(f'{name}: density', at, T.call('ref', lambda L, w: ref_pot(w, logdet(L), d), L, w))
    T.eq(f'{name}: draws have the stated covariance', drawn, T.call('refz', lambda L, z: ref_pot(z.reshape(d), logdet(L), d), L, z.array))


class Obj:
    pass


for d in (1, 2, 3):
    @harness(P, f'roots_full_d{d}', about='roots and determinant derived from a full covariance')
    def _(T, d=d):
        L, v, u = tri(T, d), T.real('v', (d,)), T.real('u', (d,))

        def f(L, v, u):
            o = Obj()
            reset_covariance(o, 'noise_covariance', L @ L.T)
            S, Q = o.noise_covariance_sqrt, o.noise_precision_sqrt
            return S @ S.T, L @ L.T, Q @ (Q.T @ (L @ (L.T @ v))), o.noise_precision_det * jnp.prod(jnp.diag(L)) ** 2, \
                o.noise_precision_mul(jnp.outer(v, u), u), jnp.outer(v, u) @ u
        a, b, c, e, g, h = T.call('f', f, L, v, u)
        T.eq('covariance root', a, b)
        T.eq('precision root inverts the covariance', c, v)
        T.eq('determinant', e, jnp.array(1.))
        T.eq('product', g, h)

    @harness(P, f'roots_diag_d{d}', about='roots and determinant derived from a diagonal covariance')
    def _(T, d=d):
        c, v = T.real('c', (d,), pos=True), T.real('v', (d,))

        def f(c, v):
            o = Obj()
            reset_covariance(o, 'covariance', c)
            return o.covariance_sqrt ** 2, c, o.precision_sqrt ** 2 * c, o.precision_mul(v, c), v * c
        a, b, e, g, h = T.call('f', f, c, v)
        T.eq('covariance root', a, b)
        T.eq('precision root', e, np.ones(d))
        T.eq('product', g, h)

for d, do, late in [(2, 1, False), (2, 2, False), (2, 2, True), (1, 1, False)]:
    tag = f'd{d}_o{do}' + ('_reassigned' if late else '')

    @harness(P, f'abc_linear_gaussian_{tag}', about='Bayesian inverse problem: prior and likelihood densities match their samplers', cost=3)
    def _(T, d=d, do=do, late=late):
        m, H, x = T.real('m', (d,)), T.real('H', (do, d)), T.real('x', (d,))
        Lp, Ll, wp, wl = tri(T, d, 'P'), tri(T, do, 'R'), T.real('wp', (d,)), T.real('wl', (do,))

        def scen(Lp, Ll, m, H):
            if late:
                s = ABCLinearGaussian(m, jnp.eye(d), jnp.zeros(do), H, jnp.eye(do))
                s.prior_covariance = Lp @ Lp.T
                s.likelihood_covariance = Ll @ Ll.T
                return s
            return ABCLinearGaussian(m, Lp @ Lp.T, jnp.zeros(do), H, Ll @ Ll.T)

        def prior(m, H, L, w, k):
            s = scen(L, jnp.eye(do), m, H)
            return s.prior_potential(m + L @ w, k), s.prior_potential(s.prior_sample(k), k)

        def lik(m, H, x, L, w, k):
            s = scen(jnp.eye(d), L, m, H)
            s.data = H @ x + L @ w
            a = s.likelihood_potential(x, k)
            s.data = s.likelihood_sample(x, k)
            return a, s.likelihood_potential(x, k)
        check_pair(T, 'prior', prior, (m, H), Lp, wp, d)
        check_pair(T, 'likelihood', lik, (m, H, x), Ll, wl, do)


for tag in ('prior_covariance', 'likelihood_covariance', 'prior_mean', 'likelihood_matrix', 'all_but_covariance'):
    @harness(P, f'abc_linear_gaussian_scalar_{tag}', about='a plain number for a mean is that value in every coordinate, for a matrix that multiple of the identity, left out mean zero and one')
    def _(T, tag=tag):
        d = 2
        m, H, x, y, k = T.real('m', (d,)), T.real('H', (d, d)), T.real('x', (d,)), T.real('y', (d,)), T.key('k')
        Lp, Ll = tri(T, d, 'P'), tri(T, d, 'R')
        full = dict(prior_mean=lambda m, H, P, R: m, prior_covariance=lambda m, H, P, R: P @ P.T, likelihood_matrix=lambda m, H, P, R: H,
                    likelihood_covariance=lambda m, H, P, R: R @ R.T)
        plain = {'prior_covariance': (2., 2. * np.eye(d)), 'likelihood_covariance': (.5, .5 * np.eye(d)), 'prior_mean': (3., 3. * np.ones(d)), 'likelihood_matrix': (.25, .25 * np.eye(d))}
        default = dict(prior_covariance=np.eye(d), likelihood_covariance=np.eye(d), prior_mean=np.zeros(d), likelihood_matrix=np.eye(d))

        def both(m, H, P, R):
            if tag == 'all_but_covariance':
                given = dict(prior_covariance=P @ P.T)
                whole = {**{q: jnp.asarray(v) for q, v in default.items()}, **given}
            else:
                given = {q: v(m, H, P, R) for q, v in full.items()}
                whole = dict(given)
                given[tag], whole[tag] = plain[tag][0], jnp.asarray(plain[tag][1])
            return given, whole

        def f(m, H, P, R, x, y, k):
            out = []
            for kw in both(m, H, P, R):
                s = ABCLinearGaussian(data=y, **kw)
                out.append((s.prior_potential(x, k), s.likelihood_potential(x, k), s.prior_sample(k), s.likelihood_sample(x, k), np.asarray(s.dim), np.asarray(s.dim_obs)))
            return out
        a, b = T.call('code', f, m, H, Lp, Ll, x, y, k)
        for n, p, q in zip(('prior density', 'likelihood density', 'prior draw', 'likelihood draw', 'dimension', 'observation dimension'), a, b):
            T.eq(n, p, q)
        T.eq('two coordinates', (a[4], a[5]), (np.asarray(d), np.asarray(d)))


def lg(**kw):
    return TimeHomogenousLinearGaussian(**kw)


for d, do in [(2, 1), (2, 2), (1, 1)]:
    @harness(P, f'linear_gaussian_ssm_d{d}_o{do}', about='linear Gaussian state-space model: every density matches its sampler and its mean', cost=3)
    def _(T, d=d, do=do):
        m, F, H, x = T.real('m', (d,)), T.real('F', (d, d)), T.real('H', (do, d)), T.real('x', (d,))
        t0, t1 = T.real('t0'), T.real('t1')

        def init(m, t0, L, w, k):
            s = lg(initial_mean=m, initial_covariance=L @ L.T)
            return s.initial_potential(m + L @ w, t0), s.initial_potential(s.initial_sample(t0, k), t0)

        def trans(F, x, t0, t1, L, w, k):
            s = lg(initial_mean=jnp.zeros(d), transition_matrix=F, transition_covariance=L @ L.T)
            return s.transition_potential(x, t0, F @ x + L @ w, t1), s.transition_potential(x, t0, s.transition_sample(x, t0, t1, k), t1)

        def lik(H, x, t0, L, w, k):
            s = lg(initial_mean=jnp.zeros(d), likelihood_matrix=H, likelihood_covariance=L @ L.T)
            return s.likelihood_potential(x, H @ x + L @ w, t0), s.likelihood_potential(x, s.likelihood_sample(x, t0, k), t0)
        check_pair(T, 'initial', init, (m, t0), tri(T, d, 'I'), T.real('wi', (d,)), d)
        check_pair(T, 'transition', trans, (F, x, t0, t1), tri(T, d, 'Q'), T.real('wt', (d,)), d)
        check_pair(T, 'likelihood', lik, (H, x, t0), tri(T, do, 'R'), T.real('wl', (do,)), do)
        T.eq('transition mean', T.call('tf', lambda F, x: lg(initial_mean=jnp.zeros(d), transition_matrix=F).transition_function(x, 0., 1.), F, x),
             T.call('Fx', lambda F, x: F @ x, F, x))

    @harness(P, f'nonlinear_gaussian_ssm_d{d}_o{do}', about='non-linear drift, Gaussian noise: every density matches its sampler and its mean', cost=3)
    def _(T, d=d, do=do):
        m, H, x = T.real('m', (d,)), T.real('H', (do, d)), T.real('x', (d,))
        t0, t1 = T.real('t0'), T.real('t1')
        drift = uf('drift', (d,))

        class NL(NonLinearGaussian):
            dim = d

            def transition_function(self, x, a, b):
                return drift(x, a, b)

        def init(m, t0, L, w, k):
            s = NL(initial_mean=m, initial_covariance=L @ L.T)
            return s.initial_potential(m + L @ w, t0), s.initial_potential(s.initial_sample(t0, k), t0)

        def trans(x, t0, t1, L, w, k):
            s = NL(transition_covariance=L @ L.T)
            return s.transition_potential(x, t0, drift(x, t0, t1) + L @ w, t1), \
                s.transition_potential(x, t0, s.transition_sample(x, t0, t1, k), t1)

        def lik(H, x, t0, L, w, k):
            s = NL(likelihood_matrix=H, likelihood_covariance=L @ L.T)
            return s.likelihood_potential(x, H @ x + L @ w, t0), s.likelihood_potential(x, s.likelihood_sample(x, t0, k), t0)
        check_pair(T, 'initial', init, (m, t0), tri(T, d, 'I'), T.real('wi', (d,)), d)
        check_pair(T, 'transition', trans, (x, t0, t1), tri(T, d, 'Q'), T.real('wt', (d,)), d)
        check_pair(T, 'likelihood', lik, (H, x, t0), tri(T, do, 'R'), T.real('wl', (do,)), do)


class TimeVarying(LinearGaussian):
    """every matrix is an arbitrary function of the times it belongs to."""
    dim, dim_obs = 2, 1

    def __init__(self):
        pass

    def get_initial_mean(self, t):
        return uf('m0', (2,))(t)

    def get_initial_covariance_sqrt(self, t):
        return uf('S0', (2, 2))(t)

    def get_initial_precision_sqrt(self, t):
        return uf('P0', (2, 2))(t)

    def get_initial_precision_det(self, t):
        return uf('D0')(t)

    def get_transition_matrix(self, s, t):
        return uf('F', (2, 2))(s, t)

    def get_transition_covariance_sqrt(self, s, t):
        return uf('Q', (2, 2))(s, t)

    def get_transition_precision_sqrt(self, s, t):
        return uf('PQ', (2, 2))(s, t)

    def get_transition_precision_det(self, s, t):
        return uf('DQ')(s, t)

    def get_likelihood_matrix(self, t):
        return uf('H', (1, 2))(t)

    def get_likelihood_covariance_sqrt(self, t):
        return uf('R', (1, 1))(t)

    def get_likelihood_precision_sqrt(self, t):
        return uf('PR', (1, 1))(t)

    def get_likelihood_precision_det(self, t):
        return uf('DR')(t)


@harness(P, 'linear_gaussian_time_varying', about='every density and draw of a time-varying model uses the matrices of its own times')
def _(T):
    x, x1, y, t0, t1, k = T.real('x', (2,)), T.real('x1', (2,)), T.real('y', (1,)), T.real('t0'), T.real('t1'), T.key('k')
    for n in ('D0', 'DQ', 'DR'):
        T.uf_range(n, .1, 9.)
    m = TimeVarying()

    def dens(r, P, D, n):
        return .5 * jnp.sum((r @ P) ** 2) + (n * L2P - jnp.log(D)) / 2
    T.eq('densities', T.call('code', lambda x, x1, y, t0, t1: (m.initial_potential(x, t0), m.transition_potential(x, t0, x1, t1), m.likelihood_potential(x, y, t1)), x, x1, y, t0, t1),
         T.call('ref', lambda x, x1, y, t0, t1: (
             dens(x - uf('m0', (2,))(t0), uf('P0', (2, 2))(t0), uf('D0')(t0), 2),
             dens(x1 - uf('F', (2, 2))(t0, t1) @ x, uf('PQ', (2, 2))(t0, t1), uf('DQ')(t0, t1), 2),
             dens(y - uf('H', (1, 2))(t1) @ x, uf('PR', (1, 1))(t1), uf('DR')(t1), 1)), x, x1, y, t0, t1))
    T.eq('mean', T.call('tf', lambda x, t0, t1: m.transition_function(x, t0, t1), x, t0, t1), T.call('rtf', lambda x, t0, t1: uf('F', (2, 2))(t0, t1) @ x, x, t0, t1))
    for n, f, g in (('initial', lambda x, t0, t1, k: m.initial_sample(t0, k), lambda x, t0, t1, z: uf('m0', (2,))(t0) + uf('S0', (2, 2))(t0) @ z),
                    ('transition', lambda x, t0, t1, k: m.transition_sample(x, t0, t1, k), lambda x, t0, t1, z: uf('F', (2, 2))(t0, t1) @ x + uf('Q', (2, 2))(t0, t1) @ z),
                    ('observation', lambda x, t0, t1, k: m.likelihood_sample(x, t1, k), lambda x, t0, t1, z: uf('H', (1, 2))(t1) @ x + uf('R', (1, 1))(t1) @ z)):
        v = T.call(n, f, x, t0, t1, k)
        z, = T.draws('normal')
        T.eq(f'{n} draw', v, T.call('r' + n, g, x, t0, t1, z.array))


@harness(P, 'ssm_defaults', about='omitted means, matrices and covariances are zero, identity and identity')
def _(T):
    x, y = T.real('x', (2,)), T.real('y', (2,))

    class NL(NonLinearGaussian):
        dim = 2

        def transition_function(self, x, a, b):
            return x

    def f(x, y):
        a, b = lg(initial_mean=jnp.zeros(2)), NL()
        return [(s.initial_potential(x, 0.), s.transition_potential(x, 0., y, 1.), s.likelihood_potential(x, y, 0.)) for s in (a, b)]

    def ref(x, y):
        g = lambda v: .5 * jnp.sum(v * v) + L2P
        return [(g(x), g(y - x), g(y - x))] * 2
    T.eq('potentials', T.call('f', f, x, y), T.call('ref', ref, x, y))


@harness(P, 'stochastic_volatility', about='stochastic volatility: densities and draws share covariances, scaled by the elapsed time, and the observation scale exp(x/2)', cost=3)
def _(T):
    d = 2
    m, F, x, y = T.real('m', (d,)), T.real('F', (d, d)), T.real('x', (d,)), T.real('y', (d,))
    t0, dt = T.real('t0'), T.real('dt', pos=True)
    c = T.real('c', (d,), pos=True)
    L, w = tri(T, d, 'Q'), T.real('w', (d,))
    k = T.key('k')

    def scen(m, F, L):
        return StochasticVolatility(d, initial_mean=m, initial_covariance=L @ L.T, transition_matrix=F, transition_covariance=L @ L.T,
                                    likelihood_covariance_diag=jnp.ones(d))

    def f(m, F, x, t0, dt, L, w, k):
        s = scen(m, F, L)
        ip, tp = lambda v: s.initial_potential(v, t0), lambda v: s.transition_potential(x, t0, v, t0 + dt)
        return ip(m + L @ w) - ip(m), tp(F @ x + L @ w * jnp.sqrt(dt)) - tp(F @ x)

    def g(m, F, x, t0, dt, L, k):
        s = scen(m, F, L)
        return s.initial_potential(s.initial_sample(t0, k), t0) - s.initial_potential(m, t0)

    def h(m, F, x, t0, dt, L, k):
        s = scen(m, F, L)
        tp = lambda v: s.transition_potential(x, t0, v, t0 + dt)
        return tp(s.transition_sample(x, t0, t0 + dt, k)) - tp(F @ x)
    a, b = T.call('densities', f, m, F, x, t0, dt, L, w, k)
    half = lambda v: .5 * jnp.sum(v * v)
    r = T.call('half', half, w)
    T.eq('initial density', a, r)
    T.eq('transition density', b, r)
    for n, fn in (('initial', g), ('transition', h)):
        v = T.call(n, fn, m, F, x, t0, dt, L, k)
        z, = T.draws('normal')
        T.eq(f'{n} draws', v, T.call('half', half, z.array))

    def lik(x, y, c, k):
        s = StochasticVolatility(d, likelihood_covariance_diag=c)
        return s.likelihood_potential(x, y, 0.), s.likelihood_sample(x, 0., k)
    p, ys = T.call('lik', lik, x, y, c, k)
    z, = T.draws('normal')
    T.eq('observation density', p, T.call('rl', lambda x, y, c: jnp.sum(.5 * y ** 2 / (c * jnp.exp(x))) + .5 * jnp.sum(x)
                                          + .5 * jnp.log(jnp.prod(c)) + d * L2P / 2, x, y, c))
    T.eq('observation draws', ys, T.call('rs', lambda x, c, z: jnp.sqrt(c) * jnp.exp(x / 2) * z, x, c, z.array))


@harness(P, 'stochastic_volatility_defaults', about='the default observation noise is one per coordinate')
def _(T):
    x, y, k = T.real('x', (2,)), T.real('y', (2,)), T.key('k')

    def f(x, y, k):
        s = StochasticVolatility(2)
        return s.likelihood_potential(x, y, 0.), s.likelihood_sample(x, 0., k)
    p, ys = T.call('lik', f, x, y, k)
    z, = T.draws('normal')
    T.eq('density', p, T.call('r', lambda x, y: jnp.sum(.5 * y ** 2 / jnp.exp(x)) + .5 * jnp.sum(x) + L2P, x, y))
    T.eq('draws', ys, T.call('rs', lambda x, z: jnp.exp(x / 2) * z, x, z.array))
