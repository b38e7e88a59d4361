"""C15  root bracketing: the search keeps a bracket of a sign change and stops exactly when it may."""
from .lib import *
from mocat.src.utils import bisect

P = "C15"


def f(x):
    return uf('f')(x)


def conj(*a):
    return jnp.all(jnp.stack([jnp.asarray(x) for x in a]))


for m in (0, 1, 2, 3, 4):
    for aslist in (False, True):
        if aslist and m != 1:
            continue

        @harness(P, f'bracket_m{m}' + ('_list' if aslist else ''), tier='quick' if m < 4 else 'thorough', about='for an arbitrary function: values belong to the bounds, bounds shrink inside the original ones around a sign change, '
                 'and the search stops only when converged, out of iterations or without a sign change')
        def _(T, m=m, aslist=aslist):
            lo, hi, tol = T.real('lo'), T.real('hi'), T.real('tol', pos=True)
            T.assume(T.call('ordered', lambda a, b: a < b, lo, hi))
            b, e, it = T.call('bisect', lambda lo, hi, tol: bisect(f, [lo, hi] if aslist else jnp.array([lo, hi]), max_iter=m, tol=tol), lo, hi, tol)
            f0, f1 = T.call('ends', lambda lo, hi: (f(lo), f(hi)), lo, hi)
            T.eq('values belong to the bounds', e, T.call('fb', lambda b: jnp.stack([f(b[0]), f(b[1])]), b))
            T.check('inside and ordered', T.call('in', lambda b, lo, hi: conj(lo <= b[0], b[0] <= b[1], b[1] <= hi), b, lo, hi))
            T.check('unchanged without sign change', T.call('same', lambda b, lo, hi, p, q: ~(((p > 0) & (q > 0)) | ((p < 0) & (q < 0))) | ((b[0] == lo) & (b[1] == hi)), b, lo, hi, f0, f1))
            T.check('sign change kept', T.call('sign', lambda e, p, q: conj(~((p <= 0) & (q >= 0)) | ((e[0] <= 0) & (e[1] >= 0)), ~((p >= 0) & (q <= 0)) | ((e[0] >= 0) & (e[1] <= 0))), e, f0, f1))
            T.check('steps within the limit', T.call('it', lambda it: (it >= 0) & (it <= m), it))
            stop = lambda e, tol: (jnp.minimum(jnp.abs(e[0]), jnp.abs(e[1])) < tol) | ((e[0] > 0) & (e[1] > 0)) | ((e[0] < 0) & (e[1] < 0))
            T.check('stops early only if done', T.call('stop', lambda it, e, tol: (it == m) | stop(e, tol), it, e, tol))
            T.check('does not step once done', T.call('start', lambda it, p, q, tol: ~stop(jnp.stack([p, q]), tol) | (it == 0), it, f0, f1, tol))
            T.check('each step shrinks the bracket', T.call('shrink', lambda it, b, lo, hi: jnp.where(it == 0, (b[0] == lo) & (b[1] == hi), b[1] - b[0] < hi - lo), it, b, lo, hi))


@harness(P, 'found', about='when the search ends before its limit on a sign change, the better end is within tolerance of a root value')
def _(T):
    m = 2
    lo, hi, tol = T.real('lo'), T.real('hi'), T.real('tol', pos=True)
    T.assume(T.call('ordered', lambda a, b: (a < b) & (f(a) * f(b) < 0), lo, hi))
    b, e, it = T.call('bisect', lambda lo, hi, tol: bisect(f, jnp.array([lo, hi]), max_iter=m, tol=tol), lo, hi, tol)
    x = T.call('best', lambda b, e: b[jnp.argmin(jnp.abs(e))], b, e)
    T.check('converged', T.call('c', lambda x, it, tol: (it == m) | (jnp.abs(f(x)) < tol), x, it, tol))
