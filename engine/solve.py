"""SMT back end: encodes path conditions and goals for z3 (cvc5 as second opinion on unknown)."""
import math
import time
import random
from fractions import Fraction
import z3
from . import term as t
from .term import RatFn, Node, leaf, PINF, NINF, NAN


class Ne:
    """goal leaf: the two rational functions must be equal; payload is their difference."""
    __slots__ = ('diff', 'a', 'b')

    def __init__(self, diff, a, b):
        self.diff, self.a, self.b = diff, a, b

    def __hash__(self):
        return hash(self.diff)

    def __eq__(self, o):
        return isinstance(o, Ne) and o.diff == self.diff

    def __repr__(self):
        return f'Ne({self.diff!r})'


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.
        self.paths = 0
        self.sample_decided = 0
        self.cvc5 = 0


class Samples:
    """random valuations of the input atoms satisfying the assumptions; used only as satisfiability witnesses."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.envs = []

    def draw_atom(self, a, rng):
        lo = a.lo if a.lo is not None else None
        hi = a.hi if a.hi is not None else None
        if a.integer:
            l = int(lo) if lo is not None else -3
            h = int(hi) if hi is not None else l + 6
            return float(rng.randint(l, h))
        if lo is not None and hi is not None:
            return rng.uniform(lo, hi)
        if a.pos or lo is not None:
            return (lo or 0.) + math.exp(rng.gauss(0, .7))
        if hi is not None:
            return hi - math.exp(rng.gauss(0, .7))
        return rng.gauss(0, 1.3)


FN_EVAL = {
    'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'erf': math.erf,
    'floor': math.floor, 'ceil': math.ceil, 'round': round, 'trunc': int, 'lgamma': math.lgamma,
    'erfc': math.erfc, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'asinh': math.asinh,
    'acosh': math.acosh, 'atanh': math.atanh, 'hide': lambda x: x,
}


_DEPS = {}


def deps(i):
    """all atoms the value of atom i depends on."""
    if i not in _DEPS:
        out = set()
        for r in t.ATOMS[i].args or ():
            if isinstance(r, RatFn):
                for p in [r.num] + [t._q_polys[q] for q, _ in r.den]:
                    for m in p:
                        for j, _ in m:
                            out.add(j)
                            out |= deps(j)
        _DEPS[i] = frozenset(out)
    return _DEPS[i]


class Env:
    """numeric valuation: base atoms given/drawn lazily, function atoms computed."""

    def __init__(self, samples, rng, base=None, bools=None):
        self.s, self.rng = samples, rng
        self.v = dict(base or {})
        self.b = dict(bools or {})
        self.busy = set()

    def atom(self, i):
        if i in self.v:
            return self.v[i]
        a = t.ATOMS[i]
        k = a.kind
        if k == 'sqrt':
            x = self.rat(a.args[0])
            r = math.sqrt(x) if x >= 0 else float('nan')
        elif k in FN_EVAL:
            try:
                r = float(FN_EVAL[k](self.rat(a.args[0])))
            except (ValueError, OverflowError):
                r = float('nan')
        elif k == 'draw' and a.extra and a.extra[0] == 'normal':
            r = self.rng.gauss(0, 1)
        elif k == 'draw' and a.extra and a.extra[0] == 'gumbel':
            r = -math.log(-math.log(self.rng.uniform(1e-9, 1 - 1e-9)))
        elif k == 'uf':
            r = self._uf(a)
        else:
            r = self.s.draw_atom(a, self.rng)
        self.v[i] = r
        return r

    def _uf(self, a):
        """the value at numerically equal arguments must be the same."""
        args = [self.rat(x) for x in a.args]
        self.busy.add(a.id)
        try:
            for b in t._fn_table.get((('uf', a.extra[0], a.extra[1]), len(a.args)), []):
                if b.id != a.id and b.id in self.v and not (deps(b.id) & self.busy):
                    if all(abs(x - self.rat(y)) <= 1e-9 * (1 + abs(x)) for x, y in zip(args, b.args)):
                        return self.v[b.id]
        finally:
            self.busy.discard(a.id)
        lo, hi = UF_RANGE.get(a.extra[0], (None, None))
        if lo is not None and hi is not None:
            return self.rng.uniform(lo, hi)
        if lo is not None:
            return lo + math.exp(self.rng.gauss(0, .7))
        return self.rng.gauss(0, 1.2)

    def mono(self, m):
        p = 1.
        for i, e in m:
            x = self.atom(i)
            try:
                p *= x ** (e if isinstance(e, int) else float(e))
            except ZeroDivisionError:
                return float('nan')
            if isinstance(p, complex):
                return float('nan')
        return p

    def poly(self, p):
        """value and magnitude."""
        s = mag = 0.
        for m, c in p.items():
            try:
                x = float(c) * self.mono(m)
            except OverflowError:
                return float('nan'), float('inf')
            s += x
            mag += abs(x)
        return s, mag

    def rat(self, r):
        s, _ = self.poly(r.num)
        for q, k in r.den:
            d, _ = self.poly(t._q_polys[q])
            if d == 0:
                return float('nan')
            s /= d ** k
        return s

    def cond(self, v):
        """truth of condition v, or None when numerically undecided."""
        c = t.CONDS[v]
        if c.kind == 'bool':
            if v not in self.b:
                self.b[v] = self.rng.random() < (0.15 if c.name[:4] in ('nan:', 'inf:') else 0.5)
            return self.b[v]
        s, mag = self.poly(c.poly)
        if math.isnan(s):
            return None
        if abs(s) <= 1e-12 * (mag + 1e-300):
            return None if mag > 0 else False
        return s > 0 if c.kind == 'gt' else s < 0

    def node(self, n):
        while n.v >= 0:
            c = self.cond(n.v)
            if c is None:
                s, _ = self.poly(t.CONDS[n.v].poly)
                if math.isnan(s):
                    return None
                c = s > 0 if t.CONDS[n.v].kind == 'gt' else s < 0
            n = n.hi if c else n.lo
        return n.leaf

    def num(self, n):
        x = self.node(n)
        if x is None:
            return float('nan')
        if isinstance(x, RatFn):
            return self.rat(x)
        if x is PINF:
            return float('inf')
        if x is NINF:
            return float('-inf')
        if x is NAN:
            return float('nan')
        return x


UF_RANGE = {}


class Engine:
    def __init__(self, seed=1, timeout_ms=20000):
        self.stats = Stats()
        self.seed = seed
        self.samples = Samples(seed)
        self.assumptions = []        # Boolean nodes
        self.envs = []
        self.zvars = {}
        self.zbool = {}
        self.roots = {}
        self.timeout = timeout_ms
        self.nsamples = 8
        self._zcache = {}
        self.sign_calls = 0
        self._feas_cache = {}

    # ------------------------------------------------------------- encoding
    def zatom(self, i):
        if i not in self.zvars:
            a = t.ATOMS[i]
            if a.integer:
                self.zvars[i] = z3.ToReal(z3.Int(f'a{i}'))
            else:
                self.zvars[i] = z3.Real(f'a{i}')
        return self.zvars[i]

    def zroot(self, i, q):
        k = (i, q)
        if k not in self.roots:
            self.roots[k] = z3.Real(f'a{i}_r{q}')
        return self.roots[k]

    def zmono(self, m, used):
        out = None
        for i, e in m:
            used.add(i)
            if isinstance(e, Fraction):
                x = self.zroot(i, e.denominator)
                used.add(('r', i, e.denominator))
                e = e.numerator
            else:
                x = self.zatom(i)
            n = abs(e)
            p = x
            for _ in range(n - 1):
                p = p * x
            if e < 0:
                p = 1 / p
            out = p if out is None else out * p
        return out

    def zpoly(self, p, used):
        terms = []
        for m, c in p.items():
            cz = z3.RealVal(str(c)) if c.denominator != 1 else z3.RealVal(c.numerator)
            if not m:
                terms.append(cz)
            else:
                zm = self.zmono(m, used)
                terms.append(zm if c == 1 else cz * zm)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def zrat(self, r, used):
        n = self.zpoly(r.num, used)
        for q, k in r.den:
            d = self.zpoly(t._q_polys[q], used)
            for _ in range(k):
                n = n / d
        return n

    def zcond(self, v, used):
        c = t.CONDS[v]
        if c.kind == 'bool':
            if v not in self.zbool:
                self.zbool[v] = z3.Bool(f'b{v}')
            used.add(('b', v))
            return self.zbool[v]
        p = self.zpoly(c.poly, used)
        return p > 0 if c.kind == 'gt' else p < 0

    def znode(self, n, used, memo=None):
        memo = {} if memo is None else memo
        k = id(n)
        if k in memo:
            return memo[k]
        if n.v < 0:
            if n.leaf is True:
                r = z3.BoolVal(True)
            elif n.leaf is False:
                r = z3.BoolVal(False)
            elif isinstance(n.leaf, Ne):
                r = self.zeq(n.leaf, used)
            else:
                raise t.Unsupported('non-Boolean goal')
        else:
            c = self.zcond(n.v, used)
            r = z3.If(c, self.znode(n.hi, used, memo), self.znode(n.lo, used, memo))
        memo[k] = r
        return r

    def zeq(self, ne, used, tol=None):
        """z3 formula for lhs == rhs (denominators cleared; divisors are nonzero on the path)."""
        d = ne.diff
        p = d.num
        if not p:
            return self.zpoly(p, used) == 0
        cont = t.poly_content_mono(p)
        negs = tuple((a, -e) for a, e in cont if e < 0)
        if negs:
            p = {t.mono_mul(m, negs): c for m, c in p.items()}
        return self.zpoly(p, used) == 0

    def axioms(self, used):
        """facts about the function atoms that occur (closure under arguments)."""
        out = []
        done = set()
        work = [u for u in used]
        exps, logs, ufs = [], [], {}
        while work:
            u = work.pop()
            if u in done:
                continue
            done.add(u)
            if isinstance(u, tuple):
                if u[0] == 'r':
                    _, i, q = u
                    r = self.zroot(i, q)
                    p = r
                    for _ in range(q - 1):
                        p = p * r
                    out.append(p == self.zatom(i))
                    out.append(r > 0)
                    work.append(i)
                continue
            a = t.ATOMS[u]
            x = self.zatom(u)
            if a.pos:
                out.append(x > 0)
            if a.lo is not None and not (a.pos and a.lo <= 0):
                out.append(x >= z3.RealVal(str(t.snap(a.lo))))
            if a.hi is not None:
                h = z3.RealVal(str(t.snap(a.hi)))
                out.append(x < h if a.kind == 'draw' else x <= h)
            nu = set()
            if a.kind in ('log', 'exp') and a.args[0].is_const and (a.kind == 'exp' or a.args[0].const > 0) and abs(a.args[0].const) < 300:
                v = Fraction(FN_EVAL[a.kind](float(a.args[0].const)))
                eps = (abs(v) + 1) / 10 ** 12
                out += [x > z3.RealVal(str(v - eps)), x < z3.RealVal(str(v + eps))]
            if a.kind == 'sqrt':
                out.append(x * x == self.zrat(a.args[0], nu))
                out.append(x >= 0)
            elif a.kind == 'exp':
                z = self.zrat(a.args[0], nu)
                out += [(z > 0) == (x > 1), (z < 0) == (x < 1), x >= 1 + z]
                exps.append((x, z))
            elif a.kind == 'log':
                z = self.zrat(a.args[0], nu)
                out += [z3.Implies(z > 1, x > 0), z3.Implies(z3.And(z < 1, z > 0), x < 0), z3.Implies(z == 1, x == 0),
                        z3.Implies(z > 0, x <= z - 1)]
                logs.append((x, z))
            elif a.kind in ('floor', 'trunc', 'ceil', 'round'):
                z = self.zrat(a.args[0], nu)
                if a.kind == 'floor':
                    out += [x <= z, z < x + 1]
                elif a.kind == 'ceil':
                    out += [x >= z, z > x - 1]
                elif a.kind == 'trunc':
                    out += [z3.Implies(z >= 0, z3.And(x <= z, z < x + 1)), z3.Implies(z < 0, z3.And(x >= z, z > x - 1))]
                else:
                    out += [x - z <= z3.Q(1, 2), z - x <= z3.Q(1, 2)]
            elif a.kind == 'uf':
                ufs.setdefault((a.extra[0], a.extra[1]), []).append(a)
                lo, hi = UF_RANGE.get(a.extra[0], (None, None))
                if lo is not None:
                    out.append(x > z3.RealVal(str(t.snap(lo))))
                if hi is not None:
                    out.append(x < z3.RealVal(str(t.snap(hi))))
            for w in nu:
                if w not in done:
                    work.append(w)
        for lst in (exps, logs):
            if len(lst) <= 6:
                for i in range(len(lst)):
                    for j in range(i):
                        (x, z), (y, w) = lst[i], lst[j]
                        if lst is logs:
                            out.append(z3.Implies(z3.And(z > 0, w > 0), (z < w) == (x < y)))
                        else:
                            out.append((z < w) == (x < y))
        nlink = 0
        for p, q in t.LINKS.values():
            la = t.poly_atoms(p)
            if nlink < 12 and la <= done and t.poly_atoms(q) <= done:
                nu = set()
                args = [self.zrat(t.ATOMS[i].args[0], nu) > 0 for i in la if t.ATOMS[i].kind == 'log']
                zp, zq = self.zpoly(p, nu), self.zpoly(q, nu)
                if nu <= done:
                    nlink += 1
                    out.append(z3.Implies(z3.And(args), z3.And((zp > 0) == (zq > 0), (zp < 0) == (zq < 0))))
        for k, lst in ufs.items():
            if len(lst) <= 4:
                for i in range(len(lst)):
                    for j in range(i):
                        nu = set()
                        same = z3.And([self.zrat(p, nu) == self.zrat(q, nu)
                                       for p, q in zip(lst[i].args, lst[j].args)] or [z3.BoolVal(True)])
                        if all((w in done) for w in nu):
                            out.append(z3.Implies(same, self.zatom(lst[i].id) == self.zatom(lst[j].id)))
        return out

    # ------------------------------------------------------------- solving
    def check(self, formulas, used, timeout=None, want_model=False, with_assumptions=True, count=True):
        """satisfiability of formulas (z3 expressions) under the assumptions and axioms."""
        used = set(used)
        fs = list(formulas)
        if with_assumptions:
            for a in self.assumptions:
                fs.append(self.znode(a, used))
        fs += self.axioms(used)
        s = z3.Solver()
        s.set('timeout', int(timeout or self.timeout))
        for f in fs:
            s.add(f)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.queries += 1
        res = str(r)
        if res == 'unknown' and count and (timeout or self.timeout) >= 5000:
            r2 = self.cvc5_check(fs, timeout or self.timeout)
            if r2 is not None:
                self.stats.cvc5 += 1
                res = r2
        if res == 'unsat':
            self.stats.unsat += 1
        elif res == 'sat':
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        m = s.model() if (want_model and str(r) == 'sat') else None
        return res, m

    def cvc5_check(self, fs, timeout):
        try:
            import cvc5
        except ImportError:
            return None
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            slv.setOption('tlimit-per', str(int(timeout)))
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = parser.getSymbolManager()
            out = ''
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out += str(cmd.invoke(slv, sm))
            if 'error' in out:
                return None
            if 'unsat' in out:
                return 'unsat'
            if 'unknown' in out:
                return None
            if 'sat' in out:
                return 'sat'
        except Exception:
            return None
        return None

    # ------------------------------------------------------------- samples
    def new_env(self, seed=None, base=None, bools=None):
        rng = random.Random(seed if seed is not None else self.samples.rng.random())
        return Env(self.samples, rng, base, bools)

    def good_env(self, tries=400, rng_seed=None):
        r = random.Random(rng_seed) if rng_seed is not None else self.samples.rng
        for _ in range(tries):
            e = self.new_env(r.random())
            if self.env_ok(e):
                return e
        # ask the solver for a starting point, then perturb
        base = self.model_env()
        return base

    def env_ok(self, e):
        for a in self.assumptions:
            if e.node(a) is not True:
                return False
        return True

    def model_env(self, extra=(), used=()):
        res, m = self.check(list(extra), set(used), want_model=True)
        if res != 'sat' or m is None:
            return None
        return self.env_from_model(m)

    def env_from_model(self, m, jitter=0., rng=None):
        base, bools = {}, {}
        for i, z in self.zvars.items():
            a = t.ATOMS[i]
            if a.kind in ('var', 'draw', 'uf'):
                v = m.eval(z, model_completion=False)
                x = zval(v)
                if x is not None:
                    if jitter and not a.integer:
                        x = x + jitter * rng.gauss(0, 1)
                        if a.lo is not None:
                            x = max(x, a.lo + 1e-6)
                        if a.hi is not None:
                            x = min(x, a.hi - 1e-6)
                    base[i] = x
        for v, z in self.zbool.items():
            x = m.eval(z, model_completion=False)
            if z3.is_true(x):
                bools[v] = True
            elif z3.is_false(x):
                bools[v] = False
        e = self.new_env(None, base, bools)
        return e

    def ensure_samples(self):
        if not self.envs:
            for _ in range(self.nsamples):
                e = self.good_env(60)
                if e is not None and self.env_ok(e):
                    self.envs.append(e)
                elif not self.envs:
                    break

    def reset_samples(self):
        self.envs = []
        self._feas_cache.clear()
        t._sign_cache.clear()

    # ------------------------------------------------------------- oracles
    def sign_oracle(self, p, s):
        self.ensure_samples()
        seen = set()
        for e in self.envs:
            v, mag = e.poly(p)
            if math.isnan(v) or abs(v) <= 1e-9 * mag:
                continue
            seen.add(1 if v > 0 else -1)
        todo = [x for x in s if x not in seen]
        if not todo or seen >= {1, -1} or len(p) > 40:
            return s
        out = set(seen)
        if len(seen) == 1:
            # is the opposite sign / zero possible?
            opp = -next(iter(seen))
            used = set()
            z = self.zpoly(self._clear(p), used)
            if opp in s:
                f = (z > 0) if opp > 0 else (z < 0)
                r, _ = self.check([f], used, timeout=400, count=False)
                if r != 'unsat':
                    return s
            if 0 in s:
                r, _ = self.check([z == 0], used, timeout=400, count=False)
                if r != 'unsat':
                    out.add(0)
            return out
        return s

    def _clear(self, p):
        cont = t.poly_content_mono(p)
        negs = []
        for a, e in cont:
            if e < 0:
                k = -e
                if not t._positive_atom(a) and k % 2:
                    k += 1
                negs.append((a, k))
        if negs:
            p = {t.mono_mul(m, tuple(negs)): c for m, c in p.items()}
        return p

    def feasible(self, n, timeout=2000):
        """may Boolean node n be true under the assumptions? (unknown counts as feasible)"""
        if n.v < 0:
            return n.leaf is True
        k = id(n)
        if k in self._feas_cache:
            return self._feas_cache[k]
        self.ensure_samples()
        for e in self.envs:
            if e.node(n) is True:
                self.stats.sample_decided += 1
                self._feas_cache[k] = True
                return True
        used = set()
        z = self.znode(n, used)
        r, _ = self.check([z], used, timeout=timeout, count=False)
        self._feas_cache[k] = r != 'unsat'
        return r != 'unsat'

    def lit(self, v, b, used, generic=True):
        c = t.CONDS[v]
        if c.kind == 'bool':
            z = self.zcond(v, used)
            return z if b else z3.Not(z)
        p = self.zpoly(c.poly, used)
        if c.kind == 'gt':
            if b:
                return p > 0
            return p < 0 if generic else p <= 0
        if b:
            return p < 0
        return p > 0 if generic else p >= 0

    def path_feasible(self, path, generic=False, timeout=1000):
        """path: list of (v, bool)."""
        k = ('p', frozenset(path), generic)
        if k in self._feas_cache:
            return self._feas_cache[k]
        self.ensure_samples()
        for e in self.envs:
            ok = True
            for v, b in path:
                c = e.cond(v)
                if c is None or c != b:
                    ok = False
                    break
            if ok:
                self.stats.sample_decided += 1
                self._feas_cache[k] = True
                return True
        used = set()
        fs = [self.lit(v, b, used, generic) for v, b in path]
        r, _ = self.check(fs, used, timeout=timeout, count=False)
        self._feas_cache[k] = r != 'unsat'
        return r != 'unsat'

    def prune(self, n, limit=6):
        """remove infeasible branches of a diagram (semantics preserved under the assumptions)."""
        if n.v < 0 or t.node_count(n) < limit:
            return n
        k = ('prune', id(n))
        if k in self._feas_cache:
            return self._feas_cache[k]

        def go(x, path):
            if x.v < 0:
                return x
            hi_p, lo_p = path + [(x.v, True)], path + [(x.v, False)]
            fh = self.path_feasible(hi_p)
            fl = self.path_feasible(lo_p) if fh else True
            if not fh:
                return go(x.lo, lo_p)
            if not fl:
                return go(x.hi, hi_p)
            return t.mk(x.v, go(x.hi, hi_p), go(x.lo, lo_p))
        r = go(n, [])
        self._feas_cache[k] = r
        self._feas_cache[('prune', id(r))] = r
        return r

    def unit_literals(self):
        """conditions that the assumptions fix outright (assumption diagrams that are conjunctions of literals)."""
        out = {}
        for n in self.assumptions:
            while n.v >= 0:
                if n.lo.v < 0 and n.lo.leaf is False:
                    out[n.v] = True
                    n = n.hi
                elif n.hi.v < 0 and n.hi.leaf is False:
                    out[n.v] = False
                    n = n.lo
                else:
                    break
        return out

    def restrict(self, n):
        """the diagram with every condition fixed by the assumptions replaced by its value."""
        lits = self.unit_literals()
        if not lits:
            return n
        memo = {}

        def go(x):
            if x.v < 0:
                return x
            r = memo.get(id(x))
            if r is None:
                b = lits.get(x.v)
                r = t.mk(x.v, go(x.hi), go(x.lo)) if b is None else go(x.hi if b else x.lo)
                memo[id(x)] = r
            return r
        return go(n)

    # ------------------------------------------------------------- proving
    def refute(self, goal, generic=True, max_cand=4, deadline=None):
        """Look for a path on which the goal fails. Returns ('proved', []), ('cex', models) or ('unknown', why)."""
        cands, unknown = [], []
        goal = self.restrict(goal)

        def dfs(n, path):
            if len(cands) >= max_cand:
                return
            if deadline is not None and time.time() > deadline:
                unknown.append('deadline')
                return
            if n.v < 0:
                if n.leaf is True:
                    return
                used = set()
                fs = [self.lit(v, b, used, generic) for v, b in path]
                if isinstance(n.leaf, Ne):
                    fs.append(z3.Not(self.zeq(n.leaf, used)))
                self.stats.paths += 1
                r, m = self.check(fs, used, want_model=True)
                if r == 'unsat':
                    return
                if r == 'sat':
                    cands.append((m, path, n.leaf))
                else:
                    unknown.append((path, n.leaf))
                return
            for br, b in ((n.hi, True), (n.lo, False)):
                np_ = path + [(n.v, b)]
                if br.v < 0 and br.leaf is True:
                    continue
                if _all_true(br):
                    continue
                if br.v >= 0 and not self.path_feasible(np_, generic):
                    continue
                dfs(br, np_)
        if goal.v < 0:
            dfs(goal, [])
            if goal.leaf is True:
                # discharge the (normalised) equality with the solver as well
                r, _ = self.check([z3.Not(z3.RealVal(0) == z3.RealVal(0))], set(), with_assumptions=False)
                self.stats.paths += 1
                if r != 'unsat':
                    unknown.append('trivial')
        else:
            n_before = self.stats.paths
            dfs(goal, [])
            if self.stats.paths == n_before and not unknown:
                self.stats.paths += 1
        if cands:
            return 'cex', cands
        if unknown:
            return 'unknown', unknown
        return 'proved', []


def _all_true(n):
    return n.v < 0 and n.leaf is True


def zval(v):
    try:
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return zval(v.arg(0))
    except Exception:
        return None
    return None
