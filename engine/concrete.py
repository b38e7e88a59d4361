"""Concrete execution of traced code: control flow in Python, every other primitive by JAX itself on concrete arrays.
Unlike jax.disable_jit this keeps the tracing semantics of the real code (no aliasing of Python objects across branches)."""
import numpy as np
import jax
import jax.numpy as jnp
from jax import core
from .interp import is_key_dtype

INLINE = {'pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'xla_call', 'custom_jvp_call', 'custom_vjp_call',
          'custom_vjp_call_jaxpr', 'core_closed_call'}


def run(jaxpr, consts, args):
    env = {}

    def read(v):
        return v.val if isinstance(v, core.Literal) else env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for e in jaxpr.eqns:
        outs = step(e, [read(v) for v in e.invars])
        for v, o in zip(e.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def closed(cj, args):
    if hasattr(cj, 'consts'):
        return run(cj.jaxpr, cj.consts, args)
    return run(cj, [], args)


def step(e, ins):
    n, p = e.primitive.name, e.params
    if n in INLINE:
        return closed(p.get('jaxpr') or p.get('call_jaxpr') or p.get('fun_jaxpr'), ins)
    if n == 'custom_linear_solve':
        cl = p['const_lengths']
        n1 = cl.matvec
        n2 = n1 + cl.vecmat
        n3 = n2 + cl.solve
        return closed(p['jaxprs'].solve, list(ins[n2:n3]) + list(ins[n3 + cl.transpose_solve:]))
    if n == 'cond':
        br = p['branches']
        i = int(np.clip(int(np.asarray(ins[0])), 0, len(br) - 1))
        return closed(br[i], ins[1:])
    if n == 'while':
        cn, bn = p['cond_nconsts'], p['body_nconsts']
        cc, bc, st = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        it = 0
        while True:
            c, = closed(p['cond_jaxpr'], list(cc) + st)
            c = np.asarray(c)
            if c.ndim:
                raise NotImplementedError('batched while predicate')
            if not c:
                return st
            st = list(closed(p['body_jaxpr'], list(bc) + st))
            it += 1
            if it > 100000:
                raise RuntimeError('loop does not terminate')
    if n == 'scan':
        nc, ncar, L = p['num_consts'], p['num_carry'], p['length']
        consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
        ys = [[None] * L for _ in range(len(e.outvars) - ncar)]
        for k in (range(L - 1, -1, -1) if p['reverse'] else range(L)):
            o = closed(p['jaxpr'], list(consts) + carry + [x[k] for x in xs])
            carry = list(o[:ncar])
            for j, y in enumerate(o[ncar:]):
                ys[j][k] = y
        out = list(carry)
        for j, col in enumerate(ys):
            v = e.outvars[ncar + j].aval
            if L == 0:
                out.append(jnp.zeros(v.shape, v.dtype))
            elif is_key_dtype(v.dtype):
                out.append(jnp.stack(col))
            else:
                out.append(jnp.asarray(np.stack([np.asarray(c) for c in col]), dtype=v.dtype))
        return out
    r = e.primitive.bind(*e.primitive.get_bind_params(p)[0], *ins, **e.primitive.get_bind_params(p)[1]) \
        if e.primitive.call_primitive else e.primitive.bind(*ins, **p)
    return r if e.primitive.multiple_results else [r]
