"""Runs the real save and load in a scratch folder; one forked process per run.

Reads a pickled list of scenarios from stdin, writes a pickled list of records to stdout.  Every file operation below
the scratch folder is noted through an audit hook together with the contents of the folder just before it.
"""
import os
import sys
import errno
import pickle
import shutil
import signal
import tempfile
import resource


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


class Stop(Exception):
    pass


class Bad:
    """a field that cannot be stored."""

    def __reduce__(self):
        raise Stop('this field cannot be stored')


def contents(core, which, bad=False):
    import numpy as np
    import jax.numpy as jnp
    n = 40000 if which == 'new' else 3
    off = dict(new=1., old=2., other=3.)[which]
    c = core.cdict(value=jnp.asarray(off + np.arange(n, dtype=float).reshape(-1, 1)), log_weight=jnp.asarray(np.zeros(n) - off),
                   parameters=core.cdict(stepsize=jnp.asarray(.25 * off), steps=int(off), nested=core.cdict(a=jnp.asarray([1., off]))),
                   summary=core.static_cdict(name=which, n=n), time=off / 8, tags=[which, None, True])
    if bad:
        c.last = Bad()
    return c


def same(core, a, b):
    import numpy as np
    if isinstance(a, core.cdict) or isinstance(b, core.cdict):
        return type(a) is type(b) and list(a.keys()) == list(b.keys()) and all(same(core, a[k], b[k]) for k in a.keys())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(core, u, v) for u, v in zip(a, b))
    if hasattr(a, 'shape') or hasattr(b, 'shape'):
        return hasattr(a, 'shape') and hasattr(b, 'shape') and isinstance(a, type(b)) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and (a is b or a == b or isinstance(a, Bad))


WRITE = os.O_WRONLY | os.O_RDWR


def one(core, sc, out):
    """in the child process."""
    scratch = sc['root']
    root = os.path.join(scratch, 'folder')
    events, fs = [], [0]
    st = dict(on=False)

    def note(kind, *paths):
        if not st['on']:
            return
        try:
            rel = [os.path.relpath(os.path.join(os.getcwd(), os.fsdecode(p)), root) if isinstance(p, (str, bytes, os.PathLike)) else p for p in paths]
        except Exception:
            return
        if all(r.startswith('..') for r in rel if isinstance(r, str)):
            return
        st['on'] = False
        try:
            k = len(events)
            events.append((kind, rel, snapshot(root)))
            if sc.get('exit_at') == k:
                flush('killed')
                os._exit(9)
        finally:
            st['on'] = True
        if sc.get('fail_at') == k:
            raise OSError(errno.EIO, 'injected failure')

    def hook(ev, args):
        if not st['on']:
            return
        if ev == 'open':
            p, mode, flags = args
            if isinstance(p, (str, bytes)) and flags & WRITE:
                note('open', p, flags)
        elif ev in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate'):
            note(ev, args[0])
        elif ev in ('os.rename', 'os.link', 'os.symlink'):
            note(ev, args[0], args[1])

    def flush(outcome, **kw):
        with open(out, 'wb') as f:
            pickle.dump(dict(outcome=outcome, events=events, **kw), f)

    c = contents(core, 'new', sc.get('bad', False))
    before = contents(core, 'new', sc.get('bad', False))
    os.chdir(root)
    sys.addaudithook(hook)
    arg = sc['path'] if sc.get('relative') else os.path.join(root, sc['path'])
    if sc.get('as_path'):
        from pathlib import Path
        arg = Path(arg)
    outcome = 'ok'
    if sc.get('limit') is not None:
        with open(out, 'wb') as f:
            pickle.dump(dict(outcome='killed', events=[]), f)
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if sc.get('kill') else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (sc['limit'], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    st['on'] = True
    try:
        kw = {} if sc['overwrite'] is None else dict(overwrite=sc['overwrite'])
        if sc.get('method'):
            c.save(arg, **kw)
        else:
            core.save_cdict(c, arg, **kw)
    except BaseException as e:
        outcome = f'{type(e).__name__}: {e}'
    st['on'] = False
    if sc.get('limit') is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    flush(outcome, kept=same(core, c, before))


def run(core, sc):
    sc = dict(sc)
    scratch = sc['root'] = tempfile.mkdtemp(prefix='mocatfiles')
    root = os.path.join(scratch, 'folder')
    out = os.path.join(scratch, 'out')
    try:
        os.mkdir(root)
        for name, data in sc['files'].items():
            os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
            with open(os.path.join(root, name), 'wb') as f:
                f.write(data)
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                one(core, sc, out)
            except BaseException as e:
                sys.stderr.write(f'{type(e).__name__}: {e}\n')
                os._exit(3)
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        with open(out, 'rb') as f:
            rec = pickle.load(f)
        rec['final'] = snapshot(root)
        rec['status'] = status
        return rec
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def classify(core, blobs):
    """which of the stored bytes are loaded as the complete new results."""
    d = tempfile.mkdtemp(prefix='mocatfiles')
    try:
        p = os.path.join(d, 'x.cdict')
        out = []
        for b in blobs:
            with open(p, 'wb') as f:
                f.write(b)
            hit = 'part'
            try:
                v = core.load_cdict(p)
                for w in ('new', 'old', 'other'):
                    if same(core, v, contents(core, w)):
                        hit = w
            except Exception:
                pass
            out.append(hit)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def isolated(f):
    """f() in a forked process, so that the parent never starts the numerical library's threads."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as h:
                pickle.dump(f(), h)
        except BaseException as e:
            sys.stderr.write(f'{type(e).__name__}: {e}\n')
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.path.insert(0, sys.argv[1])
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.filterwarnings('ignore')
    stdout = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import mocat
    from mocat.src import core
    while True:
        try:
            job = pickle.load(sys.stdin.buffer)
        except EOFError:
            break
        if job[0] == 'run':
            res = [run(core, sc) for sc in job[1]]
        elif job[0] == 'classify':
            res = isolated(lambda: classify(core, job[1]))
        else:
            def bytes_of():
                """complete earlier results, stored by the library itself."""
                d = tempfile.mkdtemp(prefix='mocatfiles')
                try:
                    out = {}
                    for w in ('old', 'other'):
                        core.save_cdict(contents(core, w), os.path.join(d, w + '.cdict'))
                        with open(os.path.join(d, w + '.cdict'), 'rb') as f:
                            out[w] = f.read()
                    return out
                finally:
                    shutil.rmtree(d, ignore_errors=True)
            res = isolated(bytes_of)
        pickle.dump(res, stdout)
        stdout.flush()
