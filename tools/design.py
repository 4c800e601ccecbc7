#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md: tools/design_head.md + one section per property (tools/props.py, last evidence) + findings + planted bugs."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
tech = {c['property']: c['technique'] for c in man['checks']} if 'checks' in man else {}
src = open(os.path.join(HERE, 'tools', 'props.py')).read()
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '']
out.append('## Properties\n')
for p in ids:
    f = os.path.join(HERE, 'evidence', p['id'] + '.json')
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e['coverage']
    out.append('### %s - %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    q = p.get('quantifier') or {}
    if isinstance(q, dict) and q.get('text'):
        out.append('* Quantified over: %s.' % q['text'])
    if p.get('why_tests_cant'):
        out.append('* Beyond the tests because: %s.' % (p.get('why_tests_cant')))
    out.append('* Anchored in: %s.' % '; '.join(m['where'] for m in p['anchors']['mechanism']) if 'anchors' in p else '')
    if p['id'] in tech:
        out.append('* Method: %s.' % tech[p['id']])
    out.append('* Enumerated and oracle: %s.' % c['rule'].rstrip('.'))
    out.append('* Quick bounds: %s.' % '; '.join('%s: %s' % kv for kv in c['bounds'].items()))
    out.append('* Families: %s.' % ', '.join('%s %d' % (k, v['executions']) for k, v in sorted(c['parts'].items())))
    out.append('* Size on the current tree (quick): %d states, %d transitions, all executed on the implementation.' % (c['states'], c['transitions']))
    if e.get('assumptions'):
        out.append('* Assumptions: %s.' % '; '.join(e['assumptions']))
    out.append('')
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out.append(open(tail).read().rstrip())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
