#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and the specs."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {'C25': 'The bucket-size search lives in a program under src/test (not part of the library) and is a floating-point search whose bound goes through lgamma/exp/log: '
             'no solver theory decides those functions, and replacing them by uninterpreted ones loses the very inequality to be shown.'}
NOTE = ('Bounded: every path of the real compiled code within the bounds listed per instance in the evidence file is explored with symbolic inputs and each assertion is decided by z3; '
        'counterexamples count only after a native replay against the real code and libraries. Trusted: the executor, the models of NTL/GMP/Crypto++/libstdc++ binaries in models/ '
        '(spot-checked by native replay of completed paths), clang. Outside the bounds nothing is claimed.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        b = '; '.join('%s: %s' % (s['name'], s['bounds']) for s in specs.SPECS[i] if s.get('tier') != 'thorough')
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the compiled code (LLVM IR) with z3 deciding each assertion, counterexamples replayed natively',
                       'level': 'model_checking', 'level_note': (NOTE + ' Quick bounds: ' + b)[:4000]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the harnesses use the public interface of the library only. Known and repaired defects: known_findings.json.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

# DESIGN.md: instances and planted bugs
d = open(V + '/DESIGN.md').read()


def section(text, mark, body):
    a, b = text.index('<!-- %s:' % mark), text.index('<!-- /%s -->' % mark)
    a = text.index('\n', a) + 1
    return text[:a] + body + text[b:]


rows = ['| check | tier | instance | bounds |', '|---|---|---|---|']
for p in props:
    groups = {}
    for s in specs.SPECS.get(p['id'], []):
        groups.setdefault((s.get('tier', 'quick'), s['bounds']), []).append(s['name'])
    rows += ['| %s | %s | %s | %s |' % (p['id'], t, ', '.join(n), b.replace('|', '/')) for (t, b), n in groups.items()]
d = section(d, 'instances', '\n'.join(rows) + '\n')
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
catches = json.load(open(V + '/tools/bugs/catches.json'))
for b in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'], m['what_it_breaks'], catches.get(b, '')))
if os.path.isdir(V + '/seeded'):
    d = section(d, 'bugs', '\n'.join(rows) + '\n')
open(V + '/DESIGN.md', 'w').write(d)
