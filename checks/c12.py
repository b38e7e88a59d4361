"""C12  built-in targets are the densities they are named after."""
import jax
from .lib import *
from .lib import tri, L2P
from mocat.src.scenarios import toy_examples as toy
from mocat.src.scenarios.twodim import toy_examples as two
from mocat.src.ssm.scenarios.nonlinear1d import NonLinear1DBenchmark

P = 'C12'
K0 = jnp.zeros(2, dtype=jnp.uint32)


def everything(s, x, te=None):
    """(potential, gradient, vectorised potential)"""
    if te is not None:
        s.temperature = te
    return s.potential(x, K0), s.grad_potential(x, K0), jnp.stack([s.potential(v, K0) for v in (x, 2 * x)])


def compare(T, name, make, args, ref, d, vec=True):
    x, te = T.real('x', (d,)), T.real('temp')

    def f(x, te, *a):
        s = make(*a)
        o = everything(s, x, te)
        return o + ((s.potential(jnp.stack([x, 2 * x]), K0),) if vec else (o[2],))

    def r(x, te, *a):
        g = lambda x: te * ref(x, *a)
        both = jnp.stack([g(x), g(2 * x)])
        return g(x), jax.grad(g)(x), both, both
    o, q = T.call(name, f, x, te, *args), T.call('ref', r, x, te, *args)
    for n, a, b in zip(('potential', 'gradient', 'points', 'vectorised'), o, q):
        T.eq(n, a, b)


for d in (1, 2, 3, 5):
    @harness(P, f'gaussian_diag_d{d}', about='Gaussian with diagonal covariance')
    def _(T, d=d):
        m, c = T.real('m', (d,)), T.real('c', (d,), pos=True)
        compare(T, 'gaussian', lambda m, c: toy.Gaussian(d, m, c), (m, c), lambda x, m, c: .5 * jnp.sum((x - m) ** 2 / c), d)


for d, late in [(1, False), (2, False), (2, True)]:
    @harness(P, f'gaussian_full_d{d}' + ('_reassigned' if late else ''), about='Gaussian with full covariance, also when the covariance is replaced later')
    def _(T, d=d, late=late):
        m, L, w = T.real('m', (d,)), tri(T, d), T.real('w', (d,))

        def f(m, L, w):
            s = toy.Gaussian(d, m, jnp.eye(d) if late else L @ L.T)
            if late:
                s.covariance = L @ L.T
            x = m + L @ w
            return s.potential(x, K0), L.T @ s.grad_potential(x, K0), s.potential(jnp.stack([x, m - x])[:1], K0) if d > 1 else s.potential(x, K0)[None]
        a, g, v = T.call('gaussian', f, m, L, w)
        r = T.call('r', lambda w: .5 * jnp.sum(w * w), w)
        T.eq('potential', a, r)
        T.eq('gradient', g, w)
        T.eq('vectorised', v[0], r)


@harness(P, 'gaussian_defaults', about='default Gaussian is standard; two-dimensional variants agree')
def _(T):
    x = T.real('x', (2,))
    r = T.call('r', lambda x: .5 * jnp.sum(x * x), x)
    for n, f in (('nd', lambda x: toy.Gaussian(2).potential(x, K0)), ('2d', lambda x: two.Gaussian().potential(x, K0)),
                 ('mean', lambda x: toy.Gaussian(mean=jnp.array([1., 2.])).potential(x + jnp.array([1., 2.]), K0)),
                 ('cov', lambda x: toy.Gaussian(covariance=4 * jnp.eye(2)).potential(2 * x, K0)),
                 ('2d cov', lambda x: two.Gaussian(jnp.array([0., 1.]), jnp.array([[4., 0.], [0., 9.]])).potential(
                     x * jnp.array([2., 3.]) + jnp.array([0., 1.]), K0))):
        T.eq(n, T.call(n, f, x), r)


def mixture_ref(x, means, Ls, weights):
    dens = 0.
    d = x.shape[-1]
    for m, L, w in zip(means, Ls, weights):
        df = x - m
        if d == 1:
            q, det = df[0] ** 2 / L[0, 0] ** 2, L[0, 0]
        else:
            a = df[0] / L[0, 0]
            b = (df[1] - L[1, 0] * a) / L[1, 1]
            q, det = a * a + b * b, L[0, 0] * L[1, 1]
        dens = dens + w * jnp.exp(-.5 * q) / (det * (2 * np.pi) ** (d / 2))
    return dens


for d in (1, 2):
    for kind in ('default', 'weights', 'full', 'shared'):
        @harness(P, f'mixture_{kind}_d{d}', about='Gaussian mixture: weighted sum of normalised component densities', cost=3)
        def _(T, d=d, kind=kind):
            n = 2
            x, means = T.real('x', (d,)), T.real('means', (n, d))
            w = T.real('weights', (n,), pos=True) if kind in ('weights', 'full') else jnp.full(n, .5)
            if kind == 'full':
                Ls = [tri(T, d, f'L{i}') for i in range(n)]
            elif kind == 'shared':
                Ls = [tri(T, d, 'L')] * n
            else:
                Ls = [jnp.eye(d)] * n

            def f(x, means, w, *Ls):
                cov = {'default': None, 'weights': None, 'full': jnp.stack([L @ L.T for L in Ls]), 'shared': Ls[0] @ Ls[0].T}[kind]
                s = toy.GaussianMixture(means, cov, w if kind in ('weights', 'full') else None)
                return jnp.exp(-s.potential(x, K0)), s.dens(x), jnp.stack([s.component_dens(x, i) for i in range(n)]).sum()
            o = T.call('mixture', f, x, means, w, *Ls)
            r = T.call('ref', lambda x, means, w, *Ls: mixture_ref(x, means, Ls, w), x, means, w, *Ls)
            for nm, a in zip(('potential', 'density', 'components'), o):
                T.eq(nm, a, r)


@harness(P, 'mixture_reassigned', about='replacing covariances, means or weights updates the density, also after earlier evaluations')
def _(T):
    x, v, m, w = T.real('x', (2,)), T.real('v', (2,), pos=True), T.real('m', (2, 2)), T.real('w', (2,), pos=True)

    def f(x, v, m, w):
        s = two.GaussianMixture(jnp.array([[-2., -2.], [2., 1.]]))
        e = lambda: (jnp.exp(-s.potential(x, K0)), s.dens(x), s.component_dens(x, 1))
        a = e()
        s.covariances = jnp.diag(v ** 2)
        b = e()
        s.means = m
        c = e()
        s.weights = w
        return a, b, c, e()

    def ref(x, v, m, w):
        m0, I = jnp.array([[-2., -2.], [2., 1.]]), [jnp.eye(2)] * 2
        V = [jnp.diag(v)] * 2
        def e(m, V, w):
            d = mixture_ref(x, m, V, w)
            return d, d, mixture_ref(x, m[1:], V, w[1:])
        h = jnp.full(2, .5)
        return e(m0, I, h), e(m0, V, h), e(m, V, h), e(m, V, w)
    o, r = T.call('mixture', f, x, v, m, w), T.call('ref', ref, x, v, m, w)
    for n, a, b in zip(('start', 'covariances', 'means', 'weights'), o, r):
        T.eq(n, a, b)


for d in (1, 2, 3, 6):
    @harness(P, f'double_well_d{d}', about='double well: sum of x^4/4 - x^2/2')
    def _(T, d=d):
        compare(T, 'dw', lambda: toy.DoubleWell(d), (), lambda x: jnp.sum(x ** 4 / 4 - x ** 2 / 2), d)

    @harness(P, f'rastrigin_d{d}', about='Rastrigin function')
    def _(T, d=d):
        a = T.real('a')
        compare(T, 'ra', lambda a: toy.Rastrigin(d, a), (a,), lambda x, a: a * d + jnp.sum(x ** 2 - a * jnp.cos(2 * np.pi * x)), d)


@harness(P, 'banana', about='banana density with its curvature and length parameters')
def _(T):
    c, l = T.real('c'), T.real('l', pos=True)

    def make(c, l):
        s = two.Banana()
        s.curviness, s.lengthiness = c, l
        return s
    compare(T, 'banana', make, (c, l), lambda x, c, l: .5 * (x[0] ** 2 / l + (x[1] + c * x[0] ** 2 - l * c) ** 2), 2, vec=False)


@harness(P, 'funnel', about="Neal's funnel")
def _(T):
    compare(T, 'funnel', two.NealFunnel, (), lambda x: .5 * (x[1] ** 2 / 3 + x[0] ** 2 * jnp.exp(-x[1] / 2)), 2, vec=False)


for n, make in (('gaussian', two.Gaussian), ('banana', two.Banana), ('funnel', two.NealFunnel), ('double_well', two.DoubleWell), ('rastrigin', two.Rastrigin)):
    @harness(P, f'grid_{n}', about='the plotting grid holds the potential at (x, y), rows following y')
    def _(T, make=make):
        xs, ys = T.real('xs', (3,)), T.real('ys', (2,))
        T.eq('grid', T.call('vec', lambda x, y: make().vec_potential(x, y, K0), xs, ys),
             T.call('ref', lambda x, y: jnp.stack([jnp.stack([make().potential(jnp.stack([a, b]), K0) for a in x]) for b in y]), xs, ys))


@harness(P, 'nonlinear_1d', about='one-dimensional growth model: densities are those of the draws')
def _(T):
    x, y, t0, w = T.real('x', (1,)), T.real('y', (1,)), T.real('t0'), T.real('w')
    si, st, sl = T.real('si', pos=True), T.real('st', pos=True), T.real('sl', pos=True)
    k = T.key('k')

    def f(x, y, t0, si, st, sl, k):
        s = NonLinear1DBenchmark(si, st, sl)
        return s.initial_potential(x, t0), s.transition_potential(x, t0, y, t0 + 1.), s.likelihood_potential(x, y, t0)
    o = T.call('pots', f, x, y, t0, si, st, sl, k)

    def ref(x, y, t0, si, st, sl, k):
        mean = x / 2 + 25 * x / (1 + x ** 2) + 8 * jnp.cos(1.2 * t0)
        g = lambda r, s: jnp.squeeze(.5 * (r / s) ** 2) + L2P / 2
        return g(x, si), g(y - mean, st), g(y - x ** 2 / 20, sl)
    T.eq('potentials', [jnp_squeeze(T, v) for v in o], T.call('ref', ref, x, y, t0, si, st, sl, k))

    def fd(x, y, t0):
        s = NonLinear1DBenchmark()
        return s.initial_potential(x, t0), s.transition_potential(x, t0, y, t0 + 1.), s.likelihood_potential(x, y, t0)
    T.eq('default potentials', [jnp_squeeze(T, v) for v in T.call('default', fd, x, y, t0)],
         T.call('refd', lambda x, y, t0: ref(x, y, t0, jnp.sqrt(2.), jnp.sqrt(10.), 1., None), x, y, t0))
    for n, fn, g in (('initial', lambda s, x, t0, k: s.initial_sample(t0, k), lambda x, t0, si, st, sl: (0 * x, si)),
                     ('transition', lambda s, x, t0, k: s.transition_sample(x, t0, t0 + 1, k),
                      lambda x, t0, si, st, sl: (x / 2 + 25 * x / (1 + x ** 2) + 8 * jnp.cos(1.2 * t0), st)),
                     ('likelihood', lambda s, x, t0, k: s.likelihood_sample(x, t0, k), lambda x, t0, si, st, sl: (x ** 2 / 20, sl))):
        v = T.call(n, lambda x, t0, si, st, sl, k: fn(NonLinear1DBenchmark(si, st, sl), x, t0, k), x, t0, si, st, sl, k)
        z, = T.draws('normal')
        T.eq(f'{n} draws', v, T.call('ref' + n, lambda x, t0, si, st, sl, z: g(x, t0, si, st, sl)[0] + g(x, t0, si, st, sl)[1] * z, x, t0, si, st, sl, z.array))


def jnp_squeeze(T, v):
    return T.call('squeeze', lambda v: jnp.squeeze(v), v)
