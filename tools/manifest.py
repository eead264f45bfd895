#!/usr/bin/env python3
"""Regenerates MANIFEST.json: one check per module harness/cNN.py that defines TRACE."""
import ast, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        f = os.path.join(VERIF, 'harness', p['id'].lower() + '.py')
        if not os.path.exists(f):
            na.append(dict(property=p['id'], reason='no check built yet'))
            continue
        c = consts(f)
        checks.append(dict(property=p['id'],
                           quick_cmd='python3 run_check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 run_check.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=c['TECHNIQUE'], level='model_checking', level_note=c['NOTE']))
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             hooks=dict(guard='', enable='', source_commits=[]),
             checks=checks, not_applicable=na)
    m['hooks'] = dict(guard='FENICS_II_VERIF', enable='no hooks were needed: the checks import the code of /repo as it is and use public interfaces only',
                      source_commits=[])
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
