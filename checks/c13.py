"""C13  kernels: the gradient methods are the derivatives of the kernel."""
import jax
from .lib import *
from .lib import tri
from mocat.src import kernels

P = 'C13'


def derivs(k, x, y):
    """(value, d/dx, d/dy, diagonal of d2/dxdy) by automatic differentiation of an independent formula."""
    H = jax.jacfwd(jax.grad(k, argnums=0), argnums=1)(x, y)
    return k(x, y), jax.grad(k, argnums=0)(x, y), jax.grad(k, argnums=1)(x, y), jnp.diag(H)


def methods(k, x, y, **kw):
    return k(x, y, **kw), k.grad_x(x, y, **kw), k.grad_y(x, y, **kw), k.diag_grad_xy(x, y, **kw)


def compare(T, name, got, ref):
    for n, a, b in zip(('value', 'gradient in x', 'gradient in y', 'mixed derivative'), got, ref):
        T.eq(f'{name}{n}', a, b)


for d in (1, 2, 3, 4):
    for bw in ('scalar', 'vector'):
        @harness(P, f'gaussian_{bw}_d{d}', about='Gaussian kernel, scalar or per-coordinate bandwidth')
        def _(T, d=d, bw=bw):
            x, y, h = T.real('x', (d,)), T.real('y', (d,)), T.real('h', () if bw == 'scalar' else (d,), pos=True)
            o = T.call('kernel', lambda x, y, h: methods(kernels.Gaussian(h), x, y), x, y, h)
            r = T.call('ref', lambda x, y, h: derivs(lambda x, y: jnp.exp(-.5 * jnp.sum((x - y) ** 2 / h ** 2)), x, y), x, y, h)
            compare(T, '', o, r)

        for beta in (-.5, -1., -2., 'any'):
            if beta == 'any' and d > 2:
                continue

            @harness(P, f'imq_{bw}_d{d}_{beta}', about='inverse multi-quadric kernel', tier='quick')
            def _(T, d=d, bw=bw, beta=beta):
                x, y, h = T.real('x', (d,)), T.real('y', (d,)), T.real('h', () if bw == 'scalar' else (d,), pos=True)
                c = T.real('c', pos=True)
                b = T.real('beta') if beta == 'any' else jnp.array(beta)
                o = T.call('kernel', lambda x, y, h, c, b: methods(kernels.IMQ(c, b if beta == 'any' else beta, h), x, y), x, y, h, c, b)

                def ref(x, y, h, c, b):
                    b = b if beta == 'any' else beta
                    return derivs(lambda x, y: (c + .5 * jnp.sum((x - y) ** 2 / h ** 2)) ** b, x, y)
                compare(T, '', o, T.call('ref', ref, x, y, h, c, b))

    @harness(P, f'preconditioned_d{d}', about='Gaussian kernel with a symmetric preconditioner')
    def _(T, d=d):
        x, y, h, L = T.real('x', (d,)), T.real('y', (d,)), T.real('h', pos=True), T.real('A', (d, d))
        o = T.call('kernel', lambda x, y, h, A: methods(kernels.PreconditionedGaussian(h, A + A.T), x, y), x, y, h, L)
        r = T.call('ref', lambda x, y, h, A: derivs(lambda x, y: jnp.exp(-.5 * (x - y) @ (A + A.T) @ (x - y) / h ** 2), x, y), x, y, h, L)
        compare(T, '', o, r)


@harness(P, 'given_parameters', about='parameters given in a call override the stored ones for every method, and only for that call')
def _(T):
    x, y, h, g = T.real('x', (2,)), T.real('y', (2,)), T.real('h', pos=True), T.real('g', pos=True)
    c, c2 = T.real('c', pos=True), T.real('c2', pos=True)

    def f(x, y, h, g, c, c2):
        k = kernels.Gaussian(h)
        q = kernels.IMQ(c, -.5, h)
        z = kernels.PreconditionedGaussian(h, jnp.eye(2))
        return methods(k, x, y, bandwidth=g), methods(k, x, y), methods(q, x, y, c=c2, bandwidth=g), methods(q, x, y), \
            methods(z, x, y, bandwidth=g), methods(z, x, y, precision=2 * jnp.eye(2)), methods(z, x, y)

    def ref(x, y, h, g, c, c2):
        a = lambda h: derivs(lambda x, y: jnp.exp(-.5 * jnp.sum((x - y) ** 2) / h ** 2), x, y)
        b = lambda c, h: derivs(lambda x, y: (c + .5 * jnp.sum((x - y) ** 2) / h ** 2) ** -.5, x, y)
        return a(g), a(h), b(c2, g), b(c, h), a(g), derivs(lambda x, y: jnp.exp(-jnp.sum((x - y) ** 2) / h ** 2), x, y), a(h)
    o, r = T.call('kernels', f, x, y, h, g, c, c2), T.call('ref', ref, x, y, h, g, c, c2)
    for n, a, b in zip(('Gaussian given ', 'Gaussian stored ', 'IMQ given ', 'IMQ stored ', 'preconditioned given ', 'precision given ', 'preconditioned stored '), o, r):
        compare(T, n, a, b)


@harness(P, 'stored_parameters', about='changing the stored parameters later takes effect, also after earlier evaluations')
def _(T):
    x, y, h = T.real('x', (2,)), T.real('y', (2,)), T.real('h', (2,), pos=True)

    def f(x, y, h):
        k = kernels.Gaussian(h[0])
        a = methods(k, x, y)
        k.parameters.bandwidth = h[1]
        return a, methods(k, x, y)

    def ref(x, y, h):
        return [derivs(lambda x, y: jnp.exp(-.5 * jnp.sum((x - y) ** 2) / h[i] ** 2), x, y) for i in (0, 1)]
    o, r = T.call('kernels', f, x, y, h), T.call('ref', ref, x, y, h)
    compare(T, 'before ', o[0], r[0])
    compare(T, 'after ', o[1], r[1])


@harness(P, 'default_parameters', about='left out parameters: bandwidth one, offset one, exponent minus one half')
def _(T):
    x, y = T.real('x', (2,)), T.real('y', (2,))
    o = T.call('kernels', lambda x, y: (methods(kernels.Gaussian(), x, y), methods(kernels.IMQ(), x, y), methods(kernels.PreconditionedGaussian(), x, y, precision=2. * jnp.eye(2))), x, y)

    def ref(x, y):
        return derivs(lambda x, y: jnp.exp(-.5 * jnp.sum((x - y) ** 2)), x, y), derivs(lambda x, y: (1. + .5 * jnp.sum((x - y) ** 2)) ** -.5, x, y), \
            derivs(lambda x, y: jnp.exp(-jnp.sum((x - y) ** 2)), x, y)
    for n, a, b in zip(('Gaussian ', 'IMQ ', 'preconditioned '), o, T.call('ref', ref, x, y)):
        compare(T, n, a, b)


@harness(P, 'batched', about='a batch of points gives the values point by point')
def _(T):
    x, y, h = T.real('x', (2, 2)), T.real('y', (2, 2)), T.real('h', pos=True)

    def f(x, y, h):
        return [(k(x, y), jnp.stack([k(x[i], y[i]) for i in range(2)])) for k in (kernels.Gaussian(h), kernels.IMQ(1., -.5, h))]
    for i, (a, b) in enumerate(T.call('kernels', f, x, y, h)):
        T.eq(f'kernel {i}', a, b)


for n, d in [(2, 1), (3, 1), (2, 2), (4, 1), (3, 3)]:
    @harness(P, f'bandwidth_{n}_d{d}', about='mean and median bandwidth rules')
    def _(T, n=n, d=d):
        v = T.real('v', (n, d))
        a = T.call('mean', kernels.mean_bandwidth_update, v)

        def dist(v):
            return jnp.stack([jnp.sqrt(jnp.sum((v[i] - v[j]) ** 2)) for i in range(n) for j in range(n)])
        T.eq('mean rule', a, T.call('ref', lambda v: jnp.sum(dist(v)) / n ** 2 / jnp.sqrt(2 * jnp.log(n)), v))
        if n == 2:
            # half of the entries are zero, the other half the single distance
            b = T.call('median', kernels.median_bandwidth_update, v)
            T.eq('median rule', b, T.call('refm', lambda v: dist(v)[1] / 2 / jnp.sqrt(2 * jnp.log(n)), v))
