"""Bounded model checking of saving results to files.

The real save runs once for every path condition (does the file exist, is overwriting asked for, which fault happens) in
a scratch folder; its file operations become a transition system over symbolic folder contents.  The point where the
process stops, how much of a file has been written by then, and the path condition are variables of the solver.
"""
import os
import sys
import time
import pickle
import subprocess
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
ABSENT, OLD, OTHER, DATA = range(4)


class Helper:
    def __init__(self):
        import mocat
        repo = os.path.dirname(os.path.dirname(os.path.realpath(mocat.__file__)))
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'files_child.py'), repo], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def __call__(self, *job):
        pickle.dump(job, self.p.stdin)
        self.p.stdin.flush()
        return pickle.load(self.p.stdout)

    def close(self):
        self.p.stdin.close()
        self.p.wait(20)


class Run:
    """one path condition: the recorded operations as steps of a transition system."""

    def __init__(self, sc, rec, value):
        self.sc, self.rec, self.steps, self.bad = sc, rec, [], []
        # value: bytes -> (kind, fraction)
        shadow = dict(sc['files'])
        self.start = {n: value(b) for n, b in shadow.items()}

        def catch_up(snap):
            for n in sorted(set(shadow) | set(snap)):
                a, b = shadow.get(n), snap.get(n)
                if a == b:
                    continue
                if b is None:
                    self.steps.append(('set', n, (ABSENT, 0), None))
                    shadow.pop(n)
                    self.bad.append(f'{n} disappeared unnoticed')
                    continue
                self.steps.append(('write', n, value(b), len(b)))
                shadow[n] = b
        ev = rec['events']
        for k, (kind, args, snap) in enumerate(ev):
            catch_up(snap)
            if sc.get('fail_at') == k:
                continue
            after = ev[k + 1][2] if k + 1 < len(ev) else rec['final']
            if kind == 'open':
                n, flags = args
                if flags & os.O_EXCL and n in shadow or n not in shadow and not flags & os.O_CREAT or n not in after and n not in shadow:
                    continue
                if flags & os.O_TRUNC or n not in shadow:
                    self.steps.append(('set', n, value(b''), k))
                    shadow[n] = b''
            elif kind == 'os.remove':
                if args[0] in shadow:
                    self.steps.append(('set', args[0], (ABSENT, 0), k))
                    shadow.pop(args[0])
            elif kind == 'os.rename':
                a, b = args
                if a in shadow:
                    self.steps.append(('move', a, b, k))
                    shadow[b] = shadow.pop(a)
                elif a.startswith('..') and after.get(b) != shadow.get(b):
                    # a complete file from elsewhere
                    self.steps.append(('set', b, value(after[b]), k))
                    shadow[b] = after[b]
            elif kind == 'os.link':
                a, b = args
                if a in shadow and b not in shadow:
                    self.steps.append(('copy', a, b, k))
                    shadow[b] = shadow[a]
        catch_up(rec['final'])
        self.end = {n: value(b) for n, b in rec['final'].items()}
        self.names = set(self.start) | set(shadow) | {x for s in self.steps for x in s[1:3] if isinstance(x, str)}

    def encode(self, names, crash, part):
        """contents of every file when the process stops at step `crash` (a step that writes is done up to `part`)."""
        num = lambda v: (z3.IntVal(v[0]), z3.RealVal(v[1]))
        st = {n: num(self.start.get(n, (ABSENT, 0))) for n in names}
        for i, s in enumerate(self.steps):
            new = dict(st)
            if s[0] == 'set':
                new[s[1]] = num(s[2])
            elif s[0] == 'move':
                new[s[2]], new[s[1]] = st[s[1]], num((ABSENT, 0))
            elif s[0] == 'copy':
                new[s[2]] = st[s[1]]
            elif s[0] == 'write':
                new[s[1]] = num(s[2])
            for n in names:
                if all(a is b for a, b in zip(new[n], st[n])):
                    continue
                at = st[n]
                if s[0] == 'write':
                    at = tuple(z3.If(crash == i, u, v) for u, v in zip((z3.IntVal(DATA), part), at))
                st[n] = tuple(z3.If(crash > i, u, v) for u, v in zip(new[n], at))
        return st


def check_save(h, seed=1, tier='quick'):
    t0 = time.time()
    o = h.opts
    res = dict(prop=h.prop, name=h.name, about=h.about, status='ok', violations=[], inconclusive=[], goals=0, proved=0, queries=0, unsat=0,
               sat=0, unknown=0, solver_s=0., paths=0, eqns=0, validated=0, replays=0, samples=[], draws=0, atoms=0, conds=0,
               functions=['mocat/src/core.py:save_cdict', 'mocat/src/core.py:load_cdict'] + (['mocat/src/core.py:cdict.save'] if o.get('method') else []))
    child = Helper()
    try:
        _check(h, child, res, tier)
    finally:
        child.close()
        res['wall'] = time.time() - t0
    return res


def _check(h, child, res, tier):
    o = h.opts
    target = o['target']
    full = child('bytes')
    others = {n: full['other'] for n in o.get('others', ('other.cdict',))}
    base = dict(path=o['path'], method=o.get('method', False), as_path=o.get('as_path', False), relative=o.get('relative', False))

    def scenario(exists, overwrite, **kw):
        return dict(base, files=dict(others, **({target: full['old']} if exists else {})), overwrite=overwrite, exists=exists, **kw)
    plain = [scenario(e, w) for e in (False, True) for w in (None, False, True)]
    recs = child('run', plain)
    scs = list(plain)
    for sc, rec in zip(plain, recs[:]):
        if sc['exists'] and not sc['overwrite']:
            continue
        more = [dict(sc, bad=True)] + [dict(sc, fail_at=k) for k in range(min(len(rec['events']), o.get('max_faults', 8)))]
        size = max(len(b) for b in rec['final'].values())
        more += [dict(sc, limit=int(size * f)) for f in (0, .5)]
        scs += more
        recs += child('run', more)
    blobs = {}
    for sc, rec in zip(scs, recs):
        for snap in [e[2] for e in rec['events']] + [rec['final']]:
            for b in snap.values():
                blobs.setdefault(b, None)
    names = list(blobs)
    for b, c in zip(names, child('classify', names)):
        blobs[b] = c

    def value(b):
        if b == full['old']:
            return OLD, 0
        if b == full['other']:
            return OTHER, 0
        return DATA, 1 if blobs.get(b) == 'new' else 0 if b == b'' else z3.Q(1, 2)
    runs = [Run(sc, rec, value) for sc, rec in zip(scs, recs)]
    every = sorted(set().union(*[r.names for r in runs]) | {target})
    res['paths'] = len(runs)
    res['eqns'] = sum(len(r.steps) for r in runs)
    res['validated'] = sum(len(r.end) for r in runs)
    for r in runs:
        if r.bad:
            res['inconclusive'].append(r.bad[0])
    for sc in plain[:2]:
        res['samples'].append(dict(inputs=[repr({k: v for k, v in sc.items() if k != 'files'})[:200]], goals=0))

    sel, crash, part = z3.Int('path'), z3.Int('crash'), z3.Real('part')
    dom = z3.And(sel >= 0, sel < len(runs), crash >= 0, part > 0, part < 1,
                 # one failure per save: either an operation fails or the process stops
                 *[z3.Implies(sel == i, crash == len(r.steps) if any(k in r.sc for k in ('bad', 'fail_at', 'limit')) else crash <= len(r.steps))
                   for i, r in enumerate(runs)])
    states = [r.encode(every, crash, part) for r in runs]

    def pick(n):
        k, q = z3.IntVal(ABSENT), z3.RealVal(0)
        for i, s in enumerate(states):
            k, q = z3.If(sel == i, s[n][0], k), z3.If(sel == i, s[n][1], q)
        return k, q
    # the encoding, run to its end, agrees with the folder the real code left behind
    sv = z3.Solver()
    for i, r in enumerate(runs):
        want = []
        for n in every:
            k, q = r.end.get(n, (ABSENT, 0))
            want.append(z3.And(states[i][n][0] == k, states[i][n][1] == q))
        sv.push()
        sv.add(crash == len(r.steps), part == z3.Q(1, 3), z3.Not(z3.And(*want)))
        if sv.check() != z3.unsat:
            res['inconclusive'].append(f'the recorded operations do not explain the folder left behind ({ {k: v for k, v in r.sc.items() if k != "files"} })')
        sv.pop()

    def flag(f):
        return z3.Or(*[sel == i for i, r in enumerate(runs) if f(r)])
    ends = z3.Or(*[z3.And(sel == i, crash == len(r.steps)) for i, r in enumerate(runs)])
    exists, over = flag(lambda r: r.sc['exists']), flag(lambda r: r.sc['overwrite'])
    fault = flag(lambda r: any(k in r.sc for k in ('bad', 'fail_at', 'limit')))
    raised, kept = flag(lambda r: r.rec['outcome'] != 'ok'), flag(lambda r: r.rec.get('kept'))
    k, q = pick(target)
    new = z3.And(k == DATA, q == 1)
    refuse = z3.And(exists, z3.Not(over))
    goals = [
        ('existing results are never lost', z3.Implies(exists, z3.Or(k == OLD, z3.And(over, new)))),
        ('never a file with part of the results', z3.Or(k == ABSENT, k == OLD, new)),
        ('other results stay as they are', z3.And(*[z3.And(pick(n)[0] == OTHER) for n in others])),
        ('a save that succeeds stores everything', z3.Implies(z3.And(ends, z3.Not(raised)), new)),
        ('a save that can succeed does', z3.Implies(z3.And(ends, z3.Not(fault), z3.Not(refuse)), z3.Not(raised))),
        ('existing results are refused', z3.Implies(refuse, raised)),
        ('a save that fails keeps the old results', z3.Implies(z3.And(ends, raised, exists), k == OLD)),
        ('what is saved stays as it is', kept),
    ]
    for label, g in goals:
        res['goals'] += 1
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(dom, z3.Not(g))
        t1 = time.time()
        v = s.check()
        res['solver_s'] = round(res['solver_s'] + time.time() - t1, 3)
        res['queries'] += 1
        if v == z3.unsat:
            res['unsat'] += 1
            res['proved'] += 1
            continue
        if v != z3.sat:
            res['unknown'] += 1
            res['inconclusive'].append(f'{label}: solver gives no answer')
            continue
        res['sat'] += 1
        m = s.model()
        i, c = m.eval(sel, True).as_long(), m.eval(crash, True).as_long()
        r = runs[i]
        what = {k: v for k, v in r.sc.items() if k != 'files'}
        detail = replay(child, r, c, label, target, full, others)
        res['replays'] += 1
        if detail is None:
            res['inconclusive'].append(f'{label}: counterexample did not reproduce ({what}, step {c} of {len(r.steps)})')
            continue
        res['violations'].append(dict(goal=label, detail=detail, inputs=[what, f'stopped at step {c} of {[s[:3] for s in r.steps]!r}'[:600]], draws=[]))
        break


def replay(child, r, c, label, target, full, others):
    """stops the real code at the point the solver chose and looks at the folder."""
    if c >= len(r.steps):
        tries = [{}]
    elif r.steps[c][0] == 'write':
        n = r.steps[c][3]
        tries = [dict(limit=x, kill=True) for x in (n // 2, n // 3, n - 1, 0)]
    else:
        tries = [dict(exit_at=r.steps[c][3])]
    for extra in tries:
        sc = dict(r.sc, **extra)
        rec, = child('run', [sc])
        got = rec['final'].get(target)
        cls = 'absent' if got is None else 'old' if got == full['old'] else child('classify', [got])[0]
        stopped = 'exit_at' in extra or 'kill' in extra
        raised = rec['outcome'] != 'ok'
        at = ', '.join(f'{k}={v}' for k, v in sc.items() if k not in ('files', 'root'))
        said = f'{at}: {"stopped" if stopped else rec["outcome"]}; the file is {cls}'
        if label == 'existing results are never lost' and sc['exists'] and cls != 'old' and not (sc['overwrite'] and cls == 'new'):
            return said
        if label == 'never a file with part of the results' and cls not in ('absent', 'old', 'new'):
            return said
        if label == 'other results stay as they are' and any(rec['final'].get(n) != b for n, b in others.items()):
            return f'{at}: another file changed'
        if stopped:
            continue
        if label == 'a save that succeeds stores everything' and not raised and cls != 'new':
            return said
        if label == 'a save that can succeed does' and raised:
            return said
        if label == 'existing results are refused' and not raised:
            return said
        if label == 'a save that fails keeps the old results' and raised and sc['exists'] and cls != 'old':
            return said
        if label == 'what is saved stays as it is' and not rec.get('kept'):
            return f'{at}: the saved object changed'
    return None
