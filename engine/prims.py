"""JAX primitives standing for the environment: random draws and arbitrary user functions.

`install()` replaces the base samplers of jax.random (normal, uniform, gumbel, exponential, randint,
poisson) by a primitive `rng_draw(key; kind, shape)`; everything jax.random builds on them
(categorical, choice, bernoulli ...) is then the real JAX code.  In symbolic mode a draw is an arbitrary
value of its support, a function of the key only.  In replay mode the value comes from a table.
`uf(name, out_shape)` makes an uninterpreted function with uninterpreted derivatives.
"""
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from jax.interpreters import ad, batching
import jax._src.random as jr

rng_p = core.Primitive('rng_draw')
uf_p = core.Primitive('uf')
uf_p.multiple_results = False

# concrete providers, set by the replay machinery
RNG_TABLE = None        # callable(kind, keybytes(tuple), shape, extra_args) -> ndarray
UF_TABLE = None         # callable(name, [arg arrays], out_shape) -> ndarray
RNG_LOG = []


def _draw_dtype(kind):
    return jnp.result_type(int) if kind in ('randint', 'poisson') else jnp.result_type(float)


# rng_draw operands: key (batch..., 2), extra args each (batch..., shape...) ; params kind, shape, nb
def _rng_abs(key, *extra, kind, shape, nb):
    return core.ShapedArray(key.shape[:nb] + tuple(shape), _draw_dtype(kind))


rng_p.def_abstract_eval(_rng_abs)


def _rng_impl(key, *extra, kind, shape, nb):
    key = np.asarray(key)
    extra = [np.asarray(e) for e in extra]
    bshape = key.shape[:nb]
    out = np.zeros(bshape + tuple(shape), _draw_dtype(kind))
    for i in np.ndindex(*bshape):
        ex = [e[i] for e in extra]
        kb = tuple(int(v) for v in key[i])
        val = RNG_TABLE(kind, kb, tuple(shape), ex) if RNG_TABLE is not None else _real_draw(kind, kb, tuple(shape), ex)
        out[i] = val
        RNG_LOG.append((kind, tuple(shape), kb, np.asarray(out[i]), ex))
    return jnp.asarray(out)


def _real_draw(kind, kb, shape, ex):
    k = jnp.asarray(kb, dtype=jnp.uint32)
    if kind == 'poisson':
        return np.asarray(_orig['poisson'](k, ex[0], shape))
    if kind == 'randint':
        return np.asarray(_orig['randint'](k, shape, ex[0], ex[1]))
    r = np.random.default_rng(list(kb) + [len(kind)])
    if kind == 'normal':
        return r.normal(size=shape)
    if kind == 'uniform':
        return r.uniform(size=shape)
    if kind == 'gumbel':
        return r.gumbel(size=shape)
    if kind == 'exponential':
        return r.exponential(size=shape)
    raise KeyError(kind)


rng_p.def_impl(_rng_impl)


def _rng_batch(args, dims, *, kind, shape, nb):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    new = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            a = jnp.broadcast_to(a[None], (size,) + a.shape)
        else:
            a = batching.moveaxis(a, d, 0)
        new.append(a)
    return rng_p.bind(*new, kind=kind, shape=shape, nb=nb + 1), 0


batching.primitive_batchers[rng_p] = _rng_batch


def _rng_jvp(primals, tangents, *, kind, shape, nb):
    out = rng_p.bind(*primals, kind=kind, shape=shape, nb=nb)
    if jnp.issubdtype(out.dtype, jnp.floating):
        return out, ad.Zero.from_value(out) if hasattr(ad.Zero, 'from_value') else jnp.zeros_like(out)
    return out, ad.Zero(core.get_aval(out).at_least_vspace())


ad.primitive_jvps[rng_p] = _rng_jvp

_orig = {}


def _key(key):
    key = jnp.asarray(key) if not hasattr(key, 'dtype') else key
    if jnp.issubdtype(key.dtype, jnp.integer):
        return key
    return jr.key_data(key)


def _shape(shape):
    if shape is None:
        return ()
    if isinstance(shape, (int, np.integer)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


def normal(key, shape=(), dtype=float):
    return rng_p.bind(_key(key), kind='normal', shape=_shape(shape), nb=0)


def uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
    u = rng_p.bind(_key(key), kind='uniform', shape=_shape(shape), nb=0)
    if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) and minval == 0 and maxval == 1:
        return u
    minval, maxval = jnp.asarray(minval, dtype=u.dtype), jnp.asarray(maxval, dtype=u.dtype)
    return u * (maxval - minval) + minval


def gumbel(key, shape=(), dtype=float):
    return rng_p.bind(_key(key), kind='gumbel', shape=_shape(shape), nb=0)


def exponential(key, shape=(), dtype=float):
    return rng_p.bind(_key(key), kind='exponential', shape=_shape(shape), nb=0)


def randint(key, shape, minval, maxval, dtype=int):
    shape = _shape(shape)
    lo = jnp.broadcast_to(jnp.asarray(minval, dtype=int), shape)
    hi = jnp.broadcast_to(jnp.asarray(maxval, dtype=int), shape)
    return rng_p.bind(_key(key), lo, hi, kind='randint', shape=shape, nb=0)


def poisson(key, lam, shape=None, dtype=int):
    shape = jnp.shape(lam) if shape is None else _shape(shape)
    lam = jnp.broadcast_to(jnp.asarray(lam, dtype=float), shape)
    return rng_p.bind(_key(key), lam, kind='poisson', shape=shape, nb=0)


def searchsorted(a, v, side='left', sorter=None, **kw):
    """the binary search of jax.numpy.searchsorted, with plain comparisons in place of its bit patterns (which differ for NaN only)."""
    a, v = jnp.asarray(a), jnp.asarray(v)
    if sorter is not None:
        a = a[sorter]
    n = a.shape[0]
    if n == 0:
        return jnp.zeros_like(v, dtype=int)
    lo, hi = jnp.zeros(v.shape, dtype=int), jnp.full(v.shape, n, dtype=int)
    for _ in range(int(np.ceil(np.log2(n + 1)))):
        mid = (lo + hi) // 2
        am = a[mid]
        left = (v <= am) if side == 'left' else (v < am)
        lo, hi = jnp.where(left, lo, mid), jnp.where(left, mid, hi)
    return hi


def install():
    if _orig:
        return
    import jax._src.numpy.lax_numpy as ln
    jnp.searchsorted = ln.searchsorted = searchsorted
    for name, f in [('normal', normal), ('uniform', uniform), ('gumbel', gumbel), ('exponential', exponential),
                    ('randint', randint), ('poisson', poisson)]:
        _orig[name] = getattr(jr, name)
        setattr(jr, name, f)
        setattr(jax.random, name, f)


# ------------------------------------------------------------------ uf
# operands: args each (batch..., argshape...), params name, out_shape, nb, special
def _uf_abs(*args, name, out_shape, nb, special):
    return core.ShapedArray(args[0].shape[:nb] + tuple(out_shape), jnp.result_type(float))


uf_p.def_abstract_eval(_uf_abs)


def _uf_impl(*args, name, out_shape, nb, special):
    args = [np.asarray(a) for a in args]
    bshape = args[0].shape[:nb]
    out = np.zeros(bshape + tuple(out_shape))
    for i in np.ndindex(*bshape):
        out[i] = UF_TABLE(name, [a[i] for a in args], tuple(out_shape))
    return jnp.asarray(out)


uf_p.def_impl(_uf_impl)


def _uf_batch(args, dims, *, name, out_shape, nb, special):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    new = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            a = jnp.broadcast_to(a[None], (size,) + a.shape)
        else:
            a = batching.moveaxis(a, d, 0)
        new.append(a)
    return uf_p.bind(*new, name=name, out_shape=out_shape, nb=nb + 1, special=special), 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_jvp(primals, tangents, *, name, out_shape, nb, special):
    out = uf_p.bind(*primals, name=name, out_shape=out_shape, nb=nb, special=special)
    tan = None
    no = len(out_shape)
    for k, (p, t) in enumerate(zip(primals, tangents)):
        if type(t) is ad.Zero:
            continue
        ash = p.shape[nb:]
        g = uf_p.bind(*primals, name=f'{name}.d{k}', out_shape=tuple(out_shape) + tuple(ash), nb=nb, special=False)
        tb = jnp.expand_dims(t, tuple(range(nb, nb + no)))
        term = jnp.sum(g * tb, axis=tuple(range(nb + no, nb + no + len(ash))))
        tan = term if tan is None else tan + term
    if tan is None:
        tan = ad.Zero(core.get_aval(out).at_least_vspace())
    return out, tan


ad.primitive_jvps[uf_p] = _uf_jvp


def uf(name, out_shape=(), special=False):
    """arbitrary smooth function of its array arguments (special: may also be +inf or NaN)."""
    def f(*args):
        args = [jnp.asarray(a, dtype=float) for a in args]
        return uf_p.bind(*args, name=name, out_shape=tuple(out_shape), nb=0, special=special)
    return f
