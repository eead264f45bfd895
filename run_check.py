#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the check of one property; see DESIGN.md.  Exit 0: held; exit 1 with a
VIOLATION line: broken; exit 2: the machinery itself failed."""
import argparse, importlib, json, os, sys, time, traceback, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
sys.dont_write_bytecode = True
import core


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = 0
        self.models = []

    def pick(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def model(self, res, what):
        core.tlc_ok(res, what)
        self.states += res.distinct
        self.transitions += res.generated
        self.models.append('%s: %d states, %d transitions, %.1fs' % (what, res.distinct, res.generated, res.wall))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--dump', help='write all failing cases to this file')
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module(a.prop.lower())
    ctx = Ctx(a.prop, a.tier, a.seed)
    if a.replay:
        cases = [json.load(open(a.replay))['input']]
    else:
        cases = mod.plan(ctx)
    t1 = time.time()
    traces = core.run_cases(a.prop, cases, per_case=getattr(mod, 'PER_CASE', 60),
                            budget=ctx.pick(getattr(mod, 'BUDGET', 600), 7200), group=getattr(mod, 'group', None))
    notrun = sum(t is None for t in traces)
    t2 = time.time()
    if notrun > len(traces) // 2:
        raise core.MachineryError('%d of %d cases not run in time' % (notrun, len(traces)))
    fails, st = core.validate(mod.TRACE, traces, timeout=ctx.pick(600, 7000))
    t3 = time.time()

    known = core.known_findings(a.prop)
    if a.dump:
        json.dump([dict(fail=f, case=cases[f['case']], trace=traces[f['case']]) for f in fails], open(a.dump, 'w'))
    keyf = getattr(mod, 'key', None)
    groups, knownhit = {}, {}
    for f in sorted(fails, key=lambda f: (f['case'], f['l'])):
        case = cases[f['case']]
        key = keyf(case, f) if keyf else ''
        hit = [k for k in known if k['key'] == key and set(f['clauses']) <= set(k['clauses'])] if key else []
        if hit:
            knownhit[hit[0]['key']] = hit[0]
            continue
        groups.setdefault((tuple(sorted(f['clauses'])), case.get('what', '')), []).append((f, case))
    for k in known:
        if k['key'] in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    nviol = 0
    rdir = os.path.join(core.EVID, 'replay')
    for (clauses, what), fs in sorted(groups.items()):
        os.makedirs(rdir, exist_ok=True)
        # the smallest failing input of the group
        f, case = min(fs, key=lambda fc: len(json.dumps(fc[1])))
        body = dict(property=a.prop, clauses=list(clauses), input=case, trace=traces[f['case']], failures=len(fs))
        name = '%s-%s-%s.json' % (a.prop, what or 'case', hashlib.md5(json.dumps(body['clauses']).encode()).hexdigest()[:6])
        path = os.path.join(rdir, name)
        with open(path, 'w') as out:
            json.dump(body, out, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('  clauses %s in %d event(s) of kind %s' % (','.join(clauses), len(fs), what))
        if a.verbose:
            print('  ' + json.dumps(body['input'])[:1500])
            print('  ' + json.dumps(body['trace'])[:1500])
        nviol += len(fs)
    sample = [c for c in cases[:1]] + [c for c in cases[len(cases)//2:len(cases)//2+1]]
    ran = sum(t is not None for t in traces)
    kinds = {}
    for c, t in zip(cases, traces):
        if t is not None:
            kinds[c.get('what', 'case')] = kinds.get(c.get('what', 'case'), 0) + 1
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='model_checking',
              coverage=dict(states=ctx.states + st['distinct'], transitions=ctx.transitions + st['generated'],
                            traces_validated_against_impl=st['traces'], events_validated=st['events'],
                            samples=[json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) < 4000 else
                                     {'truncated': json.dumps(s)[:2000]} for s in sample],
                            models=ctx.models, cases_by_kind=kinds, cases_not_run=notrun,
                            known_findings_hit=sorted(knownhit)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    if not a.replay:
        os.makedirs(core.EVID, exist_ok=True)
        with open(os.path.join(core.EVID, a.prop + '.json'), 'w') as out:
            json.dump(ev, out, indent=1)
    print('%s: %d cases %s, %d events, %d violations; plan %.1fs run %.1fs validate %.1fs'
          % (a.prop, ran, kinds, st['events'], nviol, t1 - t0, t2 - t1, t3 - t2))
    return 1 if nviol else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
