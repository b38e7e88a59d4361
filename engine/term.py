"""Symbolic values used by the jaxpr interpreter.

A scalar is a hash-consed decision diagram (`Node`) whose tests are comparison
atoms (sign conditions on polynomials) or free Booleans, and whose leaves are
  * RatFn   - a rational function with rational coefficients over real atoms
              (inputs, random draws, applications of exp/log/sqrt/uninterpreted
              functions), kept in normal form;
  * PINF / NINF / NAN - the IEEE special values;
  * True / False, and opaque leaves (words of random keys).
Rounding is not modelled: floats are extended reals.
"""
import math
from fractions import Fraction
from bisect import bisect_left

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ constants
_consts = []
_const_fr = {}


def snap(x: float) -> Fraction:
    """Fraction for a float constant; constants closer than 1e-11 (relative) are identified."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x == 0.:
        return F0
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    fr = Fraction(x)
    f = fr.limit_denominator(10000)
    if f != 0 and abs(f - fr) <= abs(fr) * Fraction(1, 10 ** 13):
        return f
    if abs(x) < 1e-3 or abs(x) > 1e6:      # powers of ten and friends
        m = Fraction(10) ** round(-math.log10(abs(x)) + 3)
        g = (fr * m).limit_denominator(10000)
        if g != 0 and abs(g / m - fr) <= abs(fr) * Fraction(1, 10 ** 13):
            return g / m
    i = bisect_left(_consts, x)
    for j in (i - 1, i):
        if 0 <= j < len(_consts) and abs(_consts[j] - x) <= 1e-11 * abs(x):
            return _const_fr[_consts[j]]
    _consts.insert(i, x)
    _const_fr[x] = fr
    return fr


# ---------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'kind', 'args', 'lo', 'hi', 'pos', 'extra', 'integer')

    def __init__(self, name, kind, args=(), lo=None, hi=None, pos=False, extra=None, integer=False):
        self.id = len(ATOMS)
        self.name, self.kind, self.args = name, kind, args
        self.lo, self.hi, self.pos, self.extra = lo, hi, pos, extra
        self.integer = integer
        ATOMS.append(self)

    def __repr__(self):
        return self.name


ATOMS = []


def reset():
    ATOMS.clear()
    CONDS.clear()
    _cond_key.clear()
    _unique.clear()
    _fn_table.clear()
    LINKS.clear()
    _q_table.clear()
    _q_polys.clear()
    _sign_cache.clear()
    global SIGN_ORACLE
    SIGN_ORACLE = None


# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom_id, exponent) sorted; exponent int or Fraction (positive atoms only), may be negative
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                if isinstance(e, Fraction) and e.denominator == 1:
                    e = e.numerator
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_pow(a, e):
    out = []
    for i, k in a:
        v = k * e
        if isinstance(v, Fraction) and v.denominator == 1:
            v = v.numerator
        out.append((i, v))
    return tuple(out)


_EPS = Fraction(1, 10 ** 11)


def poly_add(p, q, s=F1):
    """p + s*q with cancellation of relative size 1e-11 snapped to zero."""
    if not q:
        return p
    out = dict(p)
    for m, c in q.items():
        c = c * s
        if m in out:
            d = out[m] + c
            if d == 0 or (abs(d) <= _EPS * abs(c)):
                del out[m]
            else:
                out[m] = d
        else:
            out[m] = c
    return out


MAX_TERMS = 20000


def poly_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            if c == 1:
                return q
            return {k: v * c for k, v in q.items()}
        return {mono_mul(k, m): v * c for k, v in q.items()}
    if len(p) * len(q) > MAX_TERMS * 20:
        raise Unsupported('polynomial too large')
    out = {}
    mag = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = c * d
            if k in out:
                out[k] += v
                mag[k] = max(mag[k], abs(v))
            else:
                out[k] = v
                mag[k] = abs(v)
    res = {k: v for k, v in out.items() if v != 0 and abs(v) > _EPS * mag[k]}
    if len(res) > MAX_TERMS:
        raise Unsupported('polynomial too large')
    return res


def poly_const(c):
    return {(): c} if c != 0 else {}


def poly_key(p):
    return frozenset(p.items())


def poly_atoms(p):
    return {i for m in p for i, _ in m}


def mono_order(m):
    return (sum(abs(e) for _, e in m), m)


def poly_lead(p):
    return max(p, key=mono_order)


def poly_content_mono(p):
    """largest monomial dividing every term (Laurent: min exponents)."""
    it = iter(p)
    first = next(it)
    cur = dict(first)
    for m in it:
        d = dict(m)
        for a in list(cur):
            e = min(cur[a], d.get(a, 0))
            if e == 0:
                del cur[a]
            else:
                cur[a] = e
        for a, e in d.items():
            if e < 0 and a not in dict(first) and a not in cur:
                cur[a] = e
    # exponents negative in only some monomials
    neg = {}
    for m in p:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        cur[a] = min(cur.get(a, 0), e)
    return tuple(sorted((a, e) for a, e in cur.items() if e != 0))


def poly_divide_exact(p, q):
    """p / q if exact (ordinary polynomial division by leading terms), else None."""
    if len(q) == 1:
        (m, c), = q.items()
        inv = mono_pow(m, -1)
        return {mono_mul(k, inv): v / c for k, v in p.items()}
    if len(p) < len(q):
        # p can have fewer terms than q and still be divisible, rarely; treat as not divisible
        return None
    if any(e < 0 or isinstance(e, Fraction) for m in q for _, e in m):
        return None

    # lexicographic order on a fixed variable order is a monomial order for nonneg exponents
    atoms = sorted(poly_atoms(q) | poly_atoms(p))
    if any((e < 0 or isinstance(e, Fraction)) for m in p for _, e in m):
        return None
    pos = {a: i for i, a in enumerate(atoms)}

    def key(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return v
    lq = max(q, key=key)
    lqd = dict(lq)
    cq = q[lq]
    rem = dict(p)
    quo = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lm = max(rem, key=key)
        d = dict(lm)
        t = {}
        for a, e in lqd.items():
            if d.get(a, 0) < e:
                return None
        t = mono_mul(lm, mono_pow(lq, -1))
        c = rem[lm] / cq
        quo[t] = c
        rem = poly_add(rem, poly_mul({t: c}, q), -F1)
        if lm in rem:
            return None
    return quo


# interned denominators (primitive, non-monomial, leading coefficient one)
_q_table = {}
_q_polys = []


def q_intern(p):
    k = poly_key(p)
    if k not in _q_table:
        _q_table[k] = len(_q_polys)
        _q_polys.append(p)
    return _q_table[k]


class RatFn:
    __slots__ = ('num', 'den', '_h')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num else ()
        self._h = None

    def key(self):
        return (poly_key(self.num), self.den)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, RatFn) and self.den == o.den and self.num == o.num

    @property
    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    @property
    def const(self):
        return self.num.get((), F0)

    @property
    def is_zero(self):
        return not self.num

    def __repr__(self):
        return show(self)


def show(r, limit=12):
    def sp(p):
        if not p:
            return '0'
        parts = []
        for m, c in sorted(p.items(), key=lambda t: mono_order(t[0]))[:limit]:
            cs = f'{float(c):.6g}'
            ms = '*'.join(ATOMS[i].name + (f'^{e}' if e != 1 else '') for i, e in m)
            parts.append(cs if not ms else (ms if c == 1 else f'{cs}*{ms}'))
        if len(p) > limit:
            parts.append(f'...({len(p)} terms)')
        return ' + '.join(parts)
    if isinstance(r, RatFn):
        s = sp(r.num)
        for q, k in r.den:
            s = f'({s})/({sp(_q_polys[q])})^{k}'
        return s
    return repr(r)


def rconst(x):
    return RatFn(poly_const(snap(x)))


R0 = RatFn({})
R1 = RatFn({(): F1})


def ratom(a, e=1):
    return RatFn({((a.id, e),): F1})


def _den_merge(d1, d2, op):
    d = dict(d1)
    for q, k in d2:
        d[q] = op(d.get(q, 0), k)
    return tuple(sorted((q, k) for q, k in d.items() if k))


def _den_poly(pairs):
    out = {(): F1}
    for q, k in pairs:
        for _ in range(k):
            out = poly_mul(out, _q_polys[q])
    return out


def _cancel(num, den):
    """cancel denominators that divide the numerator exactly."""
    if not den or not num:
        return num, ()
    out = []
    for q, k in den:
        qp = _q_polys[q]
        while k:
            if len(num) > 3000:
                break
            # clear negative exponents for division
            cont = poly_content_mono(num)
            base = {mono_mul(m, mono_pow(cont, -1)): c for m, c in num.items()} if cont else num
            d = poly_divide_exact(base, qp)
            if d is None:
                break
            num = {mono_mul(m, cont): c for m, c in d.items()} if cont else d
            k -= 1
        if k:
            out.append((q, k))
    return num, tuple(out)


def _fix_roots(r):
    """reduce powers of square-root atoms: S^2 -> P ; exponents end in {0,1}."""
    bad = None
    for m in r.num:
        for i, e in m:
            if ATOMS[i].kind == 'sqrt' and e not in (0, 1):
                bad = True
                break
            if ATOMS[i].kind in ('sin',) and e >= 2 and not isinstance(e, Fraction):
                bad = True
                break
        if bad:
            break
    if not bad:
        return r
    total = RatFn({})
    plain = {}
    for m, c in r.num.items():
        rest = []
        mult = None
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'sqrt' and e not in (0, 1):
                e = Fraction(e)
                k = math.floor(e / 2)
                rem = e - 2 * k
                if rem.denominator != 1:
                    rest.append((i, e if e.denominator != 1 else e.numerator))
                    continue
                f = rpow_int(a.args[0], k)
                mult = f if mult is None else rmul(mult, f)
                if rem:
                    rest.append((i, 1))
            elif a.kind == 'sin' and not isinstance(e, Fraction) and e >= 2:
                cosa = fn_atom('cos', a.args)
                f = rpow_int(radd(R1, rmul(cosa, cosa), -F1), e // 2)
                mult = f if mult is None else rmul(mult, f)
                if e % 2:
                    rest.append((i, 1))
            else:
                rest.append((i, e))
        if mult is None:
            plain[m] = c
        else:
            total = radd(total, rmul(RatFn({tuple(rest): c}), mult))
    total = radd(total, RatFn(plain))
    if r.den:
        total = rmul(total, RatFn({(): F1}, r.den))
    return total


def radd(a, b, s=F1):
    if not b.num:
        return a
    if not a.num:
        return RatFn({m: c * s for m, c in b.num.items()}, b.den) if s != 1 else b
    if a.den == b.den:
        n = poly_add(a.num, b.num, s)
        if not a.den:
            return RatFn(n)
        n, d = _cancel(n, a.den)
        return RatFn(n, d)
    d = _den_merge(a.den, b.den, max)
    da, db = dict(a.den), dict(b.den)
    fa = _den_poly([(q, k - da.get(q, 0)) for q, k in d])
    fb = _den_poly([(q, k - db.get(q, 0)) for q, k in d])
    n = poly_add(poly_mul(a.num, fa), poly_mul(b.num, fb), s)
    n, d = _cancel(n, d)
    return _fix_roots(RatFn(n, d))


def rneg(a):
    return RatFn({m: -c for m, c in a.num.items()}, a.den)


def rsub(a, b):
    return radd(a, b, -F1)


def rmul(a, b):
    if not a.num or not b.num:
        return R0
    n = poly_mul(a.num, b.num)
    if not a.den and not b.den:
        return _fix_roots(RatFn(n))
    d = _den_merge(a.den, b.den, lambda x, y: x + y)
    n, d = _cancel(n, d)
    return _fix_roots(RatFn(n, d))


def rinv(a):
    """1/a ; caller guarantees a != 0."""
    num = a.num
    cont = poly_content_mono(num)
    ic = mono_pow(cont, -1)
    prim = {mono_mul(m, ic): c for m, c in num.items()} if cont else num
    if len(prim) == 1:
        c = prim[()]
        res = RatFn({ic: 1 / c})
    else:
        lc = prim[poly_lead(prim)]
        prim = {m: c / lc for m, c in prim.items()}
        res = RatFn({ic: 1 / lc}, ((q_intern(prim), 1),))
    for q, k in a.den:
        p = RatFn(_q_polys[q])
        for _ in range(k):
            res = rmul(res, p)
    return _fix_roots(res)


def rdiv(a, b):
    return rmul(a, rinv(b))


def rpow_int(a, n):
    if n < 0:
        return rpow_int(rinv(a), -n)
    out = R1
    while n:
        if n & 1:
            out = rmul(out, a)
        n >>= 1
        if n:
            a = rmul(a, a)
    return out


# ------------------------------------------------------------- sign reasoning
_sign_cache = {}
SIGN_ORACLE = None      # callable(poly) -> set of possible signs subset of {-1,0,1}

INF = float('inf')


def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    v = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
    return min(v), max(v)


def atom_interval(i):
    a = ATOMS[i]
    lo = -INF if a.lo is None else a.lo
    hi = INF if a.hi is None else a.hi
    return lo, hi


def _fl(x):
    return float(x)


def _pow_iv(i, e):
    a = ATOMS[i]
    lo, hi = atom_interval(i)
    strict = a.pos
    if isinstance(e, int) and e > 0:
        if e % 2 == 0:
            if lo >= 0:
                return lo ** e, hi ** e
            if hi <= 0:
                return hi ** e, lo ** e
            return 0, max(lo ** e if lo > -INF else INF, hi ** e if hi < INF else INF)
        return (lo ** e if lo > -INF else -INF), (hi ** e if hi < INF else INF)
    if lo >= 0:
        if e > 0:
            return lo ** float(e), (hi ** float(e) if hi < INF else INF)
        return (0 if hi == INF else hi ** float(e)), (INF if lo == 0 else lo ** float(e))
    if isinstance(e, int) and e % 2 == 0:
        return 0, INF
    return -INF, INF


def poly_interval(p):
    lo = hi = 0
    allstrict = False
    for m, c in p.items():
        iv = (1, 1)
        for i, e in m:
            iv = _imul(iv, _pow_iv(i, e))
        c = float(c)
        iv = _imul(iv, (c, c))
        lo += iv[0]
        hi += iv[1]
        if math.isnan(lo):
            lo = -INF
        if math.isnan(hi):
            hi = INF
    return lo, hi


def mono_strict_pos(m):
    for i, e in m:
        a = ATOMS[i]
        if a.pos:
            continue
        if a.lo is not None and a.lo > 0:
            continue
        return False
    return True


def poly_signs(p):
    """set of possible signs of polynomial p (subset of {-1,0,1})."""
    if not p:
        return frozenset((0,))
    if len(p) == 1 and () in p:
        return frozenset((1 if p[()] > 0 else -1,))
    k = poly_key(p)
    if k in _sign_cache:
        return _sign_cache[k]
    try:
        lo, hi = poly_interval(p)
    except OverflowError:
        lo, hi = -INF, INF
    eps = 1e-12
    s = {-1, 0, 1}
    if lo > eps:
        s = {1}
    elif hi < -eps:
        s = {-1}
    else:
        if lo >= -1e-15:
            s.discard(-1)
            if any(c > 0 and mono_strict_pos(m) for m, c in p.items()):
                s.discard(0)
        if hi <= 1e-15:
            s.discard(1)
            if any(c < 0 and mono_strict_pos(m) for m, c in p.items()):
                s.discard(0)
    if len(s) > 1 and SIGN_ORACLE is not None:
        s2 = SIGN_ORACLE(p, s)
        s = s & set(s2) if s2 else s
    s = frozenset(s)
    _sign_cache[k] = s
    return s


def rat_signs(r):
    s = poly_signs(r.num)
    for q, k in r.den:
        if k % 2:
            t = poly_signs(_q_polys[q])
            if 1 in t and -1 in t:
                return frozenset((-1, 0, 1)) if 0 in s else frozenset((-1, 1))
            if -1 in t:
                s = frozenset(-x for x in s)
    return s


def known_pos(r):
    return rat_signs(r) == {1}


def known_nonzero(r):
    return 0 not in rat_signs(r)


# --------------------------------------------------------- decision diagrams
class Node:
    __slots__ = ('v', 'hi', 'lo', 'leaf', '_size')

    def __init__(self, v, hi, lo, leaf):
        self.v, self.hi, self.lo, self.leaf = v, hi, lo, leaf

    @property
    def is_leaf(self):
        return self.v < 0

    def __repr__(self):
        if self.v < 0:
            return repr(self.leaf)
        return f'ite({CONDS[self.v]}, {self.hi!r}, {self.lo!r})'


_unique = {}


class Special:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


PINF, NINF, NAN = Special('+inf'), Special('-inf'), Special('nan')


def leaf(x):
    k = ('L', x) if not isinstance(x, bool) else ('B', x)
    n = _unique.get(k)
    if n is None:
        n = Node(-1, None, None, x)
        _unique[k] = n
    return n


def TRUE():
    return leaf(True)


def FALSE():
    return leaf(False)


def num(x):
    """leaf for a Python/numpy number."""
    if isinstance(x, (bool,)):
        return leaf(bool(x))
    if isinstance(x, int):
        return leaf(RatFn(poly_const(Fraction(x))))
    x = float(x) if not isinstance(x, Fraction) else x
    if isinstance(x, float):
        if math.isnan(x):
            return leaf(NAN)
        if math.isinf(x):
            return leaf(PINF if x > 0 else NINF)
    return leaf(RatFn(poly_const(snap(x))))


# condition atoms. Pairs (2k, 2k+1) = (p > 0, p < 0); Booleans use (2k) only.
CONDS = []
_cond_key = {}


class Cond:
    __slots__ = ('kind', 'poly', 'name')

    def __init__(self, kind, poly=None, name=None):
        self.kind, self.poly, self.name = kind, poly, name

    def __repr__(self):
        if self.kind == 'bool':
            return self.name
        return f'[{show(RatFn(self.poly), 6)} {">" if self.kind == "gt" else "<"} 0]'


def bool_var(name):
    k = ('b', name)
    if k not in _cond_key:
        _cond_key[k] = len(CONDS)
        CONDS.append(Cond('bool', name=name))
        CONDS.append(Cond('unused', name=name + '!'))
    return mk(_cond_key[k], TRUE(), FALSE())


def mk(v, hi, lo):
    if hi is lo:
        return hi
    c = CONDS[v]
    if c.kind == 'gt' and hi.v == v + 1:
        hi = hi.lo
        if hi is lo:
            return hi
    k = (v, id(hi), id(lo))
    n = _unique.get(k)
    if n is None:
        n = Node(v, hi, lo, None)
        _unique[k] = n
    return n


def cof(n, v, b):
    if n.v == v:
        return n.hi if b else n.lo
    if b and CONDS[v].kind == 'gt' and n.v == v + 1:
        return n.lo
    return n


INFV = 1 << 60


def ite(f, g, h, memo=None):
    """f Boolean node; g,h any nodes."""
    if f.v < 0:
        if f.leaf is True:
            return g
        if f.leaf is False:
            return h
        raise Unsupported(f'ite on non-Boolean {f!r}')
    if g is h:
        return g
    if memo is None:
        memo = {}
    k = (id(f), id(g), id(h))
    r = memo.get(k)
    if r is not None:
        return r
    v = f.v
    if 0 <= g.v < v:
        v = g.v
    if 0 <= h.v < v:
        v = h.v
    r = mk(v, ite(cof(f, v, True), cof(g, v, True), cof(h, v, True), memo),
           ite(cof(f, v, False), cof(g, v, False), cof(h, v, False), memo))
    memo[k] = r
    return r


# memo tables key on id(): keep nodes alive through _unique, so ids are stable
PRUNER = None
MAX_NODES = 4000


def apply(op, *args, memo=None):
    """apply leaf operation op (returning Node) pointwise over diagrams."""
    if memo is None:
        memo = {}
    return _apply(op, args, memo)


def _apply(op, args, memo):
    v = INFV
    for a in args:
        if 0 <= a.v < v:
            v = a.v
    if v == INFV:
        return op(*[a.leaf for a in args])
    k = tuple(id(a) for a in args)
    r = memo.get(k)
    if r is not None:
        return r
    hi = _apply(op, tuple(cof(a, v, True) for a in args), memo)
    lo = _apply(op, tuple(cof(a, v, False) for a in args), memo)
    # hi/lo may test smaller conditions introduced by op
    test = mk(v, TRUE(), FALSE())
    if (hi.v < 0 or hi.v > v) and (lo.v < 0 or lo.v > v):
        r = mk(v, hi, lo)
    else:
        r = ite(test, hi, lo)
    memo[k] = r
    return r


def node_count(n, seen=None):
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.v >= 0:
            st.append(x.hi)
            st.append(x.lo)
    return len(seen)


def leaves(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.v >= 0:
            st.append(x.hi)
            st.append(x.lo)
        else:
            out.append(x.leaf)
    return out


def b_not(f):
    return apply(lambda x: leaf(not x), f)


def b_and(f, g):
    return ite(f, g, FALSE())


def b_or(f, g):
    return ite(f, TRUE(), g)


def b_xor(f, g):
    return ite(f, b_not(g), g)


# -------------------------------------------------------------- comparisons
def _sign_cond(p, sgn):
    """Node for (sign(p) == sgn), sgn in {1,-1}; p nonzero polynomial (dict)."""
    s = poly_signs(p)
    if sgn not in s:
        return FALSE()
    if s == {sgn}:
        return TRUE()
    lc = p[poly_lead(p)]
    if lc < 0:
        sgn = -sgn
    q = {m: c / lc for m, c in p.items()}
    # round the coefficients in the key to identify ulp-different conditions
    k = ('c', frozenset((m, snap_key(c)) for m, c in q.items()))
    i = _cond_key.get(k)
    if i is None:
        i = len(CONDS)
        CONDS.append(Cond('gt', q))
        CONDS.append(Cond('lt', q))
        _cond_key[k] = i
    gt = mk(i, TRUE(), FALSE())
    s = poly_signs(q)
    if sgn > 0:
        return gt
    if 0 not in s:
        return mk(i, FALSE(), TRUE())
    return mk(i + 1, TRUE(), FALSE()) if 1 not in s else mk(i, FALSE(), mk(i + 1, TRUE(), FALSE()))


def snap_key(c):
    return c


def _positive_atom(i):
    a = ATOMS[i]
    return a.pos or (a.lo is not None and a.lo > 0)


def canon_sign_poly(r):
    """polynomial with the same sign as rational function r (all reals where r is defined)."""
    n = r.num
    for q, k in r.den:
        if k % 2:
            t = poly_signs(_q_polys[q])
            if t <= {1, 0}:
                continue
            if t <= {-1, 0}:
                n = {m: -c for m, c in n.items()}
                continue
            n = poly_mul(n, _q_polys[q])
    if not n:
        return n
    cont = poly_content_mono(n)
    if cont:
        shift = []
        for a, e in cont:
            if _positive_atom(a):
                shift.append((a, -e))
            elif e < 0:
                k = -e
                if k % 2:
                    k += 1
                shift.append((a, k))
            elif isinstance(e, int) and e >= 2:
                k = e if e % 2 else e - 1
                # x^e * rest: sign same as x^(1 or 2)*rest
                shift.append((a, -(e - (2 if e % 2 == 0 else 1))))
        shift = tuple((a, e) for a, e in shift if e)
        if shift:
            n = {mono_mul(m, shift): c for m, c in n.items()}
    return n


def _log_canon(n):
    """Σ c_i log(a_i) + rest > 0, integer c_i -> Π a_i^c_i * exp(rest) > 1;
       c1*M1 - c2*M2 with M over exp atoms only -> linear comparison."""
    logs = []
    rest = {}
    for m, c in n.items():
        la = [(i, e) for i, e in m if ATOMS[i].kind == 'log']
        if la:
            if len(m) != 1 or m[0][1] != 1:
                return None
            logs.append((m[0][0], c))
        else:
            rest[m] = c
    if logs:
        den = 1
        for _, c in logs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        if den > 12 or any(abs(c * den) > 12 for _, c in logs):
            return None
        prod = R1
        for i, c in logs:
            prod = rmul(prod, rpow_int(ATOMS[i].args[0], int(c * den)))
        ex = rexp(RatFn({m: c * den for m, c in rest.items()}))
        if ex is None:
            return None
        return rsub(rmul(prod, ex), R1)
    if len(n) == 2:
        (m1, c1), (m2, c2) = n.items()
        if c1 * c2 < 0 and (m1 or m2) and all(ATOMS[i].kind == 'exp' for i, _ in m1 + m2):
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            tot = rconst(math.log(c1 / -c2))
            for m, s in ((m1, 1), (m2, -1)):
                for i, e in m:
                    tot = radd(tot, ATOMS[i].args[0], Fraction(e) * s)
            return tot
    return None


# comparisons of logarithms decided as polynomial comparisons: key -> (log-linear polynomial, polynomial of the same sign)
LINKS = {}


def sign_cond(r, sgn):
    """Boolean Node: sign(r) == sgn for RatFn r."""
    for _ in range(4):
        if r.is_const:
            c = r.const
            return leaf((c > 0) if sgn > 0 else (c < 0))
        p = canon_sign_poly(r)
        if not p:
            return FALSE()
        q = _log_canon(p)
        if q is None:
            return _sign_cond(p, sgn)
        if any(ATOMS[i].kind == 'log' for i in poly_atoms(p)):
            LINKS.setdefault(poly_key(p), (p, canon_sign_poly(q) if not q.is_const else q.num))
        r = q
    return _sign_cond(canon_sign_poly(r), sgn)


def zero_cond(r):
    if r.is_const:
        return leaf(r.const == 0)
    if known_nonzero(r):
        return FALSE()
    a = sign_cond(r, 1)
    b = sign_cond(r, -1)
    return b_not(b_or(a, b))


# ---------------------------------------------------------- function atoms
_fn_table = {}


def rat_equal(a, b):
    if a == b:
        return True
    return rsub(a, b).is_zero


def fn_atom(name, args, **kw):
    """atom for an application of function `name`, equal arguments (as rational functions) share the atom."""
    lst = _fn_table.setdefault((name, len(args)), [])
    exact = _fn_table.setdefault(('#', name, len(args)), {})
    k = tuple(args)
    a = exact.get(k)
    if a is None:
        for b in ([] if name == 'hide' else lst):
            if all(rat_equal(x, y) for x, y in zip(args, b.args)):
                a = b
                break
        if a is None:
            a = Atom(kw.pop('label', None) or f'{name}{len(lst)}', kw.pop('kind', name), tuple(args), **kw)
            lst.append(a)
        exact[k] = a
    return ratom(a)


def rexp(r):
    """exp of RatFn as RatFn."""
    if r.is_const:
        c = r.const
        if c == 0:
            return R1
        try:
            return rconst(math.exp(float(c)))
        except OverflowError:
            return None
    out = R1
    for m, c in sorted(r.num.items(), key=lambda t: mono_order(t[0])):
        if not m and not r.den:
            out = rmul(out, rconst(math.exp(float(c))))
            continue
        # log atoms: exp(k*log a) = a^k
        if not r.den and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' and c.denominator == 1 and abs(c) <= 12:
            out = rmul(out, rpow_int(ATOMS[m[0][0]].args[0], int(c)))
            continue
        if not r.den and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' and c.denominator <= 24:
            base = rpow_frac(ATOMS[m[0][0]].args[0], c)
            if base is not None:
                out = rmul(out, base)
                continue
        if c.denominator <= 64 and abs(c.numerator) <= 4096:
            base = fn_atom('exp', (RatFn({m: F1}, r.den),), pos=True, lo=0.)
            e = c.numerator if c.denominator == 1 else c
        else:
            # irrational-looking factor: keep the sign outside so that E(-x) = 1/E(x)
            s = 1 if c > 0 else -1
            base = fn_atom('exp', (RatFn({m: c * s}, r.den),), pos=True, lo=0.)
            e = s
        (bm, bc), = base.num.items()
        out = rmul(out, RatFn({mono_pow(bm, e): F1}))
    return out


def rpow_frac(r, e):
    """r^e for r known positive, e Fraction; RatFn or None."""
    if e.denominator == 1:
        return rpow_int(r, int(e))
    if r.is_const:
        return rconst(float(r.const) ** float(e))
    if r.den or len(r.num) > 1:
        # content extraction
        cont = poly_content_mono(r.num)
        out = None
        prim = r
        if cont and mono_all_pos(cont):
            out = RatFn({mono_pow(cont, e): F1})
            prim = RatFn({mono_mul(m, mono_pow(cont, -1)): c for m, c in r.num.items()}, r.den)
        if (e * 2).denominator == 1:
            s = sqrt_pos(prim)
            res = rpow_int(s, int(e * 2))
            return res if out is None else rmul(out, res)
        if prim.den:
            return None
        return None
    (m, c), = r.num.items()
    if c > 0 and mono_all_pos(m):
        return rmul(rconst(float(c) ** float(e)), RatFn({mono_pow(m, e): F1}))
    return None


def mono_all_pos(m):
    return all(_positive_atom(i) for i, _ in m)


def _perfect_square(p):
    """square root polynomial if p is an exact square of a polynomial, else None (small p only)."""
    if not p or len(p) > 60:
        return None
    cont = poly_content_mono(p)
    base = {mono_mul(m, mono_pow(cont, -1)): c for m, c in p.items()}
    if any(isinstance(e, Fraction) for m in base for _, e in m):
        return None
    half = mono_pow(cont, Fraction(1, 2))
    if any(isinstance(e, Fraction) and not _positive_atom(i) for i, e in half):
        return None
    atoms = sorted(poly_atoms(base))
    pos = {a: i for i, a in enumerate(atoms)}

    def key(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return v
    lm = max(base, key=key)
    if any(e % 2 for _, e in lm):
        return None
    c = base[lm]
    if c < 0:
        return None
    sc = fr_sqrt(c)
    root = {mono_pow(lm, Fraction(1, 2)): sc}
    rl = next(iter(root))
    rem = poly_add(base, poly_mul(root, root), -F1)
    for _ in range(40):
        if not rem:
            return {mono_mul(m, half): v for m, v in root.items()}
        l2 = max(rem, key=key)
        t = mono_mul(l2, mono_pow(rl, -1))
        if any(e < 0 for _, e in t):
            return None
        tc = rem[l2] / (2 * sc)
        # rem - (2*root*t + t^2)
        rem = poly_add(rem, poly_mul(root, {t: 2 * tc}), -F1)
        rem = poly_add(rem, poly_mul({t: tc}, {t: tc}), -F1)
        if t in root or l2 in rem:
            return None
        root[t] = tc
    return None


def fr_sqrt(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return snap(math.sqrt(c))


def sqrt_pos(r):
    """sqrt of RatFn known nonneg, as RatFn (choosing the nonneg root)."""
    if r.is_zero:
        return R0
    if r.is_const:
        return RatFn(poly_const(fr_sqrt(r.const)))
    # split off denominators with even power / known sign
    den_s = R1
    num_r = RatFn(r.num)
    for q, k in r.den:
        qp = RatFn(_q_polys[q])
        if k % 2:
            num_r = rmul(num_r, qp)
            k += 1
        den_s = rmul(den_s, rpow_int(qp, k // 2))
    # den_s may be negative: use |den_s|
    if r.den:
        sg = rat_signs(den_s)
        if not (sg <= {1}):
            if sg <= {-1}:
                den_s = rneg(den_s)
            else:
                # give up on splitting
                return _sqrt_atom(r)
    root = _perfect_square(num_r.num)
    if root is not None:
        sg = poly_signs(root)
        if sg <= {0, 1}:
            s = RatFn(root)
        elif sg <= {0, -1}:
            s = rneg(RatFn(root))
        else:
            s = ('abs', RatFn(root))
            if r.den:
                s = ('abs', rdiv(RatFn(root), den_s))
            return s
    else:
        n = num_r.num
        cont = poly_content_mono(n)
        fac = R1
        if cont:
            ev = []
            for a, e in cont:
                if _positive_atom(a):
                    ev.append((a, e))
            ev = tuple(ev)
            if ev:
                fac = RatFn({mono_pow(ev, Fraction(1, 2)): F1})
                n = {mono_mul(m, mono_pow(ev, -1)): c for m, c in n.items()}
        if len(n) == 1 and () in n:
            s = RatFn(poly_const(fr_sqrt(n[()])))
        else:
            lc = n[poly_lead(n)]
            g = abs(lc)
            n = {m: c / g for m, c in n.items()}
            s = rmul(RatFn(poly_const(fr_sqrt(g))), _sqrt_atom(RatFn(n)))
        s = rmul(fac, s)
    if r.den:
        s = rdiv(s, den_s)
    return s


def _sqrt_atom(r):
    return fn_atom('sqrt', (r,), pos=known_pos(r), lo=0.)


def rlog(r):
    """log of RatFn known positive, as RatFn."""
    if r.is_const:
        return rconst(math.log(float(r.const)))
    cont = poly_content_mono(r.num)
    keep = tuple((a, e) for a, e in cont if _positive_atom(a))
    prim = {mono_mul(m, mono_pow(keep, -1)): c for m, c in r.num.items()} if keep else r.num
    out = R0
    for a, e in keep:
        at = ATOMS[a]
        if at.kind == 'exp':
            t = at.args[0]
        elif at.kind == 'sqrt':
            t = rmul(rconst(0.5), rlog(at.args[0]))
        else:
            t = fn_atom('log', (ratom(at),))
        out = radd(out, t, Fraction(e))
    dens = []
    if all(poly_signs(_q_polys[q]) == {1} for q, _ in r.den):
        for q, k in r.den:
            out = radd(out, fn_atom('log', (RatFn(_q_polys[q]),)), Fraction(-k))
        rest = RatFn(prim)
    else:
        rest = RatFn(prim, r.den)
    if rest.is_const:
        return radd(out, rconst(math.log(float(rest.const))))
    lc = rest.num[poly_lead(rest.num)]
    if not rest.den and lc > 0:
        out = radd(out, rconst(math.log(float(lc))))
        rest = RatFn({m: c / lc for m, c in rest.num.items()})
    if not rest.den and len(rest.num) > 2:
        root = _perfect_square(rest.num)
        if root is not None:
            sg = poly_signs(root)
            if sg == {1} or sg == {-1}:
                return radd(out, rlog(RatFn(root) if sg == {1} else rneg(RatFn(root))), Fraction(2))
    return radd(out, fn_atom('log', (rest,)))
