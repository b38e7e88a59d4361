"""Runs the solver-based check of one property:  python run.py C01 [--tier quick|thorough] [--only NAME]"""
import os
import sys
import time
import json
import argparse
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MOCAT_REPO', '/repo')


def bootstrap():
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if vt not in sys.path:
        sys.path.append(vt)
    import warnings
    warnings.filterwarnings('ignore')
    import jax
    jax.config.update('jax_enable_x64', True)
    from engine import prims
    prims.install()
    import mocat
    assert os.path.realpath(mocat.__file__).startswith(os.path.realpath(REPO)), mocat.__file__


def load(prop):
    import importlib
    importlib.import_module(f'checks.{prop.lower()}')
    if os.path.exists(f'{HERE}/checks/{prop.lower()}_more.py'):
        importlib.import_module(f'checks.{prop.lower()}_more')


STARTS = None


def _init(starts):
    global STARTS
    STARTS = starts
    bootstrap()


def _job(args):
    prop, name, seed, tier, limit, deadline = args[:6]
    import signal
    if STARTS is not None:
        STARTS[args[6]] = time.time()
    limit = min(limit, deadline - time.time())
    if limit < 5:
        return dict(prop=prop, name=name, status='timeout', violations=[], inconclusive=['time limit of the whole check'], wall=0.)

    class TO(BaseException):
        pass

    def onalarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, onalarm)
    # repeated: an exception raised inside a destructor is swallowed
    signal.setitimer(signal.ITIMER_REAL, limit, 2.)
    t0 = time.time()
    try:
        load(prop)
        from engine import harness
        h = [x for x in harness.REGISTRY[prop] if x.name == name][0]
        return h.opts.get('runner', harness.run_harness)(h, seed, tier)
    except TO:
        return dict(prop=prop, name=name, status='timeout', violations=[], inconclusive=['time limit'], wall=time.time() - t0)
    except Exception as e:
        import traceback
        return dict(prop=prop, name=name, status='error', violations=[],
                    inconclusive=[f'{type(e).__name__}: {e}', traceback.format_exc()[-1500:]], wall=time.time() - t0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split(' -- ')[0].split() if '=' in x)
                d['text'] = line.split(' -- ', 1)[1] if ' -- ' in line else ''
                out.append(d)
    return out


def is_known(kf, r, v):
    return any(k.get('harness') == r['name'] and v['goal'].startswith(k.get('goal', '')) for k in kf)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-q', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    # harness names are needed to build the task list
    bootstrap()
    load(a.prop)
    from engine import harness
    hs = [h for h in harness.REGISTRY[a.prop] if (h.tier == 'quick' or a.tier == 'thorough')]
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    limit, total = (300, 720) if a.tier == 'quick' else (3000, 10800)
    jobs = [(a.prop, h.name, seed, a.tier, limit, t0 + total) for h in sorted(hs, key=lambda h: -h.opts.get('cost', 1))]
    if a.serial or len(jobs) == 1:
        res = [_job(j) for j in jobs]
    else:
        ctx = mp.get_context('spawn')
        starts = ctx.Array('d', len(jobs), lock=False)
        with ctx.Pool(min(8, len(jobs)), initializer=_init, initargs=(starts,)) as pool:
            kf = [k for k in known_findings() if k.get('property') == a.prop]
            out, res, stop = [pool.apply_async(_job, (j + (i,),)) for i, j in enumerate(jobs)], [None] * len(jobs), None
            while any(r is None for r in res):
                time.sleep(.2)
                for i, (j, o) in enumerate(zip(jobs, out)):
                    if res[i] is not None:
                        continue
                    if o.ready():
                        res[i] = o.get()
                        if stop is None and any(not is_known(kf, res[i], v) for v in res[i]['violations']):
                            stop = time.time() + 60    # the verdict is settled: the others get one more minute
                    # a solver call that ignores its own limit is given up here
                    elif time.time() > min(j[5] + 40, stop or j[5] + 40, starts[i] + limit + 30 if starts[i] else j[5] + 40):
                        res[i] = dict(prop=j[0], name=j[1], status='stopped', violations=[], wall=0.,
                                      inconclusive=['stopped: another harness already shows a violation' if stop else 'time limit, or worker lost'])
            pool.terminate()
    report(a, seed, hs, res, time.time() - t0)


def report(a, seed, hs, res, wall):
    kf = [k for k in known_findings() if k.get('property') == a.prop]
    viol, inconc, known = [], [], []
    for r in res:
        for v in r['violations']:
            (known if is_known(kf, r, v) else viol).append((r, v))
        if r['inconclusive']:
            inconc.append(r)
    tot = lambda k: int(sum(r.get(k, 0) for r in res))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    import checks.registry as reg
    meta = reg.CHECKS.get(a.prop) or dict(bounds='')
    ev = dict(
        property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('eqns'), traces_validated_against_impl=tot('validated'),
            samples=[dict(harness=r['name'], **s) for r in res for s in r.get('samples', [])][:6],
            harnesses=[dict(name=r['name'], about=r.get('about', ''), goals=r.get('goals'), proved=r.get('proved'),
                            queries=r.get('queries'), unsat=r.get('unsat'), sat=r.get('sat'), unknown=r.get('unknown'),
                            solver_s=r.get('solver_s'), jaxpr_equations=r.get('eqns'), random_draws=r.get('draws'),
                            symbolic_atoms=r.get('atoms'), conditions=r.get('conds'), replays=r.get('replays'),
                            wall_s=round(r.get('wall', 0), 2)) for r in res],
            queries=tot('queries'), queries_unsat=tot('unsat'), queries_sat=tot('sat'), queries_unknown=tot('unknown'),
            solver_seconds=round(sum(r.get('solver_s', 0) for r in res), 3),
            goals=tot('goals'), goals_proved=tot('proved'), second_solver_answers=tot('cvc5'),
            functions_encoded=sorted({f for r in res for f in r.get('functions', [])}),
            bounds=meta['bounds'],
            meaning='states = symbolic path/goal leaves decided by the solver; transitions = jaxpr equations of the real '
                    'code interpreted symbolically; traces_validated = scalar outputs of the real code compared with '
                    'the encoding on concrete inputs'),
        undecided=[dict(harness=r['name'], why=str(r['inconclusive'][0])[:300]) for r in inconc],
        assumptions=(meta.get('assumptions') or []) + reg.COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v or a.q:
        for r in sorted(res, key=lambda r: r['name']):
            print(f"{r['name']}: {r.get('proved')}/{r.get('goals')} q={r.get('queries')} solver={r.get('solver_s')} "
                  f"eqns={r.get('eqns')} val={r.get('validated')} wall={r.get('wall', 0):.1f} {r.get('status')}"
                  + (' UNWIND' if r.get('unwind_open') else ''))
            if r.get('witness_failed'):
                print('   witness failed:', r['witness_failed'][:2])
    for r, v in known:
        text = next((k['text'] for k in kf if k.get('harness') == r['name'] and v['goal'].startswith(k.get('goal', ''))), '')
        print(f"KNOWN-FINDING: property={a.prop} {r['name']}: {v['goal']}: {text}")
    for r in inconc:
        print(f"UNDECIDED property={a.prop} harness={r['name']}: " + (' | '.join(str(x) for x in r['inconclusive'][:3]) if a.v else str(r['inconclusive'][0])[:600]))
    if viol:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for r, v in viol:
            p = os.path.join(rd, f"{a.prop}-{r['name']}.json".replace(' ', '_').replace('/', '_'))
            with open(p, 'w') as f:
                json.dump(dict(property=a.prop, harness=r['name'], seed=seed, **v), f, indent=1, default=str)
            print(f"VIOLATION property={a.prop} replay={p}  [{r['name']}: {v['goal']}: {v.get('detail', '')}]")
        sys.exit(1)
    decided = [r for r in res if not r['inconclusive'] and r.get('goals')]
    if not decided or 2 * len(decided) < len(res):
        print('most harnesses are undecided: no answer')
        sys.exit(3)
    if len(decided) < len(res) and not inconc:
        print('UNDECIDED: a harness had no goals')
    print(f"OK property={a.prop} harnesses={len(res)} goals={tot('goals')} queries={tot('queries')} wall={wall:.1f}s")


if __name__ == '__main__':
    main()
