#!/usr/bin/env python3
"""outs.py DUMP [WIDTH]: summary of the failing cases in a --dump file"""
import json, sys, collections, re
c, first = collections.Counter(), {}
for d in json.load(open(sys.argv[1])):
    outs = [e.get('out') for e in d['trace'] if e.get('out') not in ('ok', None)] or [e.get('how') for e in d['trace'] if e['ev'] == 'crash'] or ['ok']
    k = (tuple(sorted(d['fail']['clauses'])), d['case'].get('what'), re.sub(r'\d+', '#', str(outs[0])))
    c[k] += 1
    if k not in first or len(json.dumps(d)) < len(json.dumps(first[k])):
        first[k] = d
for k, n in c.most_common(15):
    print(n, k)
    if len(sys.argv) > 2:
        print('    ', json.dumps(first[k]['case'])[:int(sys.argv[2])])
        print('    ', first[k]['fail'], json.dumps(first[k]['trace'])[:int(sys.argv[2])])
