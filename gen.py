"""Writes properties.jsonl, MANIFEST.json and the property tables of DESIGN.md from checks/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks.registry import REG, TECH   # noqa

PY = '/opt/venv/bin/python -B'


def main():
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for r in REG:
            f.write(json.dumps(dict(id=r['id'], title=r['title'], statement=r['statement'],
                                    quantifier=dict(over=r['over'], text=r['quant']), why_tests_cant=r['why'],
                                    anchors=dict(files=r['files'], mechanism=[dict(name=a, where=b) for a, b in r['mechanism']],
                                                 hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd=f'{PY} -c "import jax, sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import z3"',
               checks=[dict(property=r['id'], quick_cmd=f'{PY} run.py {r["id"]} --tier quick',
                            thorough_cmd=f'{PY} run.py {r["id"]} --tier thorough', technique=r['tech'] or TECH, level='model_checking',
                            level_note=r['level_note'] or (
                                'Solver verdict over all values within the bounds: ' + r['bounds'] + '. Real arithmetic instead of floating point; '
                                'random draws, user potentials and transcendental functions as stated in the assumptions; counterexamples are replayed on the real code.'))
                       for r in REG if not r['na']],
               not_applicable=[dict(property=r['id'], reason=r['na']) for r in REG if r['na']],
               notes='Every check traces the real code of /repo to a jaxpr and interprets it over symbolic values (engine/); no hooks in /repo.')
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    p = f'{HERE}/DESIGN.md'
    if os.path.exists(p):
        s = open(p).read()
        a, b = '<!-- properties -->', '<!-- /properties -->'
        rows = []
        for r in REG:
            if r['na']:
                rows.append(f"### {r['id']} {r['title']}\nNot applicable: {r['na']}\n")
            else:
                rows.append(f"### {r['id']} {r['title']}\n- **Decided by**: {r['how']}\n- **Bounds**: {r['bounds']}\n"
                            f"- **Beyond the tests**: {r['why']}\n")
        s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + s[s.index(b):]
        open(p, 'w').write(s)


if __name__ == '__main__':
    main()
