"""C08  result containers: copying, indexing and joining never alter, mix or lose values."""
import jax
from .lib import *

P = 'C08'


def make(T, tag, n):
    return dict(a=T.real(tag + 'a', (n, 2)), b=T.real(tag + 'b', (n,)), s=T.real(tag + 's'), i=T.real(tag + 'i', (n, 2)), e=T.real(tag + 'e', (n,)))


def build(d, name, with_time=True):
    c = cdict(a=d['a'], b=d['b'], s=d['s'], inner=cdict(i=d['i'], e=d['e']), fixed=static_cdict(i=d['i'], e=d['e']), label=name)
    if with_time:
        c.time = d['s'] * 2
    return c


def flat(c):
    return c.a, c.b, c.s, c.inner.i, c.inner.e, c.fixed.i, c.fixed.e


for n, m in [(1, 1), (2, 3), (3, 1)]:
    @harness(P, f'join_{n}_{m}', about='joining appends every shared array (nested ones too), adds times, keeps static data, leaves the operands alone')
    def _(T, n=n, m=m):
        x, y = make(T, 'x', n), make(T, 'y', m)

        def f(x, y):
            c, d = build(x, 'left'), build(y, 'right')
            d.extra = jnp.ones(2)
            c.own = x['b']
            r = c + d
            ok = type(r) is cdict and type(r.inner) is cdict and not hasattr(r, 'extra') and r.label == 'left' \
                and type(r.fixed) is static_cdict and set(r.keys()) == set(c.keys())
            return flat(r), r.time, r.own, flat(c), flat(d), c.time, d.time, jnp.array(ok)
        r, time, own, c, d, ct, dt, ok = T.call('join', f, x, y)
        T.check('structure', ok)
        ref = T.call('ref', lambda x, y: (jnp.concatenate([x['a'], y['a']]), jnp.concatenate([x['b'], y['b']]),
                                          jnp.stack([x['s'], y['s']]), jnp.concatenate([x['i'], y['i']]),
                                          jnp.concatenate([x['e'], y['e']]), x['i'], x['e']), x, y)
        for k, nm in enumerate(('a', 'b', 's', 'inner.i', 'inner.e', 'fixed.i', 'fixed.e')):
            T.eq(f'joined {nm}', r[k], ref[k])
        src = lambda v: (v['a'], v['b'], v['s'], v['i'], v['e'], v['i'], v['e'])
        T.eq('own field', own, x['b'])
        T.eq('left operand unchanged', c, src(x))
        T.eq('right operand unchanged', d, src(y))
        T.eq('left time unchanged', ct, T.call('t', lambda s: 2 * s, x['s']))
        T.eq('right time unchanged', dt, T.call('t', lambda s: 2 * s, y['s']))


@harness(P, 'join_times', about='plain numbers: times add, other plain values keep the left one; joining with nothing is a copy')
def _(T):
    x = T.real('x', (2,))

    def f(x):
        a, b = cdict(v=x, time=2.5, n=4, word='l'), cdict(v=x, time=.75, n=9, word='r')
        r = a + b
        e = a + None
        return jnp.array([r.time, r.n, a.time, b.time, e.time, e.n]), e.v, jnp.array(r.word == 'l' and e is not a)
    o, v, ok = T.call('f', f, x)
    T.eq('numbers', o, np.array([3.25, 4., 2.5, .75, 2.5, 4.]))
    T.eq('joined with nothing', v, x)
    T.check('labels', ok)


IDX = {'int': 1, 'neg': -1, 'slice': slice(1, None), 'from_to': slice(0, 2), 'step': slice(None, None, 2), 'new': jnp.newaxis, 'ints': np.array([2, 0, 0]),
       'last': (slice(None), 0)}
for nm, ix in IDX.items():
    @harness(P, f'index_{nm}', about='indexing indexes every array in the same way, leaves scalars and static data, does not touch the original')
    def _(T, ix=ix):
        x = make(T, 'x', 3)

        def f(x):
            c = build(x, 'l')
            if isinstance(ix, tuple):
                del c.b, c.inner.e
                c.b, c.inner.e = c.a, c.inner.i
            before = flat(c)
            r = c[ix]
            return flat(r), before, flat(c), jnp.array(r.label == 'l' and r is not c and type(r.inner) is cdict and r.time is c.time)
        r, before, after, ok = T.call('index', f, x)
        T.check('structure', ok)
        ref = T.call('ref', lambda x: (x['a'][ix], (x['a'] if isinstance(ix, tuple) else x['b'])[ix], x['s'], x['i'][ix],
                                       (x['i'] if isinstance(ix, tuple) else x['e'])[ix], x['i'], x['e']), x)
        T.eq('indexed', r, ref)
        T.eq('original unchanged', after, before)


@harness(P, 'index_traced', about='a computed index selects that very entry of every field')
def _(T):
    x = make(T, 'x', 3)
    i = T.choice('i', 3)
    r = T.call('index', lambda x, i: flat(build(x, 'l')[i]), x, i)
    ref = T.call('ref', lambda x, i: tuple(jnp.where(i == 0, v[0], jnp.where(i == 1, v[1], v[2])) for v in (x['a'], x['b'], x['i'], x['e'])), x, i)
    T.eq('indexed', (r[0], r[1], r[3], r[4]), ref)
    T.eq('static', (r[2], r[5], r[6]), (x['s'], x['i'], x['e']))


@harness(P, 'join_then_index', about='the parts of a joined container can be recovered by slicing')
def _(T):
    x, y = make(T, 'x', 2), make(T, 'y', 3)

    def f(x, y):
        c, d = build(x, 'l'), build(y, 'r')
        del c.s, d.s
        r = c + d
        a, b = r[:2], r[2:]
        return (a.a, a.b, a.inner.i, a.inner.e), (b.a, b.b, b.inner.i, b.inner.e)
    a, b = T.call('f', f, x, y)
    T.eq('first part', a, (x['a'], x['b'], x['i'], x['e']))
    T.eq('second part', b, (y['a'], y['b'], y['i'], y['e']))


@harness(P, 'copy', about='assigning to a copy never changes the original; a deep copy shares nothing')
def _(T):
    x = make(T, 'x', 2)
    v = T.real('v', (2,))

    def f(x, v):
        c = build(x, 'l')
        d = c.copy()
        d.a = v
        d.new = v
        d.inner = cdict()
        e = cdict(k=jnp.ones(2), inner=cdict(z=jnp.ones(2)))
        g = e.deepcopy()
        g.inner.z = jnp.zeros(2)
        return flat(c), d.a, d.b, e.inner.z, g.k, jnp.array(not hasattr(c, 'new') and cdict().is_empty and not c.is_empty
                                                            and list(c) == list(c.keys()))
    c, da, db, ez, gk, ok = T.call('f', f, x, v)
    T.eq('original', c, (x['a'], x['b'], x['s'], x['i'], x['e'], x['i'], x['e']))
    T.eq('copy', (da, db), (v, x['b']))
    T.eq('deep copy', (ez, gk), (np.ones(2), np.ones(2)))
    T.check('bookkeeping', ok)


@harness(P, 'pytree', about='passing through jit, scan and vmap keeps every field under its own name')
def _(T):
    x = make(T, 'x', 3)

    def f(x):
        c = build(x, 'l')
        del c.label, c.fixed
        flat = lambda c: (c.a, c.b, c.s, c.inner.i, c.inner.e)
        d = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(c), jax.tree_util.tree_leaves(c))
        e = jax.jit(lambda q: q)(c)
        g = jax.lax.scan(lambda z, q: (z, q), 0., cdict(a=c.a, b=c.b, inner=c.inner))[1]
        h = jax.vmap(lambda q: cdict(b=2 * q.b, a=q.a))(cdict(b=c.b, a=c.a))
        k = jax.lax.cond(c.s > 0, lambda q: q, lambda q: q.copy(), c)
        return flat(d), flat(e), (g.a, g.b, g.inner.i, g.inner.e), h.a, h.b, flat(k), d.time, jnp.array(type(e.inner) is cdict)
    d, e, g, ha, hb, k, t, ok = T.call('f', f, x)
    src = (x['a'], x['b'], x['s'], x['i'], x['e'])
    T.eq('flatten/unflatten', d, src)
    T.eq('jit', e, src)
    T.eq('cond', k, src)
    T.eq('scan', g, (x['a'], x['b'], x['i'], x['e']))
    T.eq('vmap', (ha, hb), T.call('r', lambda x: (x['a'], 2 * x['b']), x))
    T.eq('time', t, T.call('r2', lambda x: 2 * x['s'], x))
    T.check('type', ok)
