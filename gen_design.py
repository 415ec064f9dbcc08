#!/usr/bin/env python3
"""Prints the per-property section of DESIGN.md from the property table and config."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import config
exec(open(os.path.join(HERE, 'gen_meta.py')).read().split("with open")[0])
out = []
for x in P:
    c = config.PROPS.get(x['id'])
    out.append('### %s %s' % (x['id'], x['title']))
    out.append('* Anchors: ' + ', '.join(x['files']))
    out.append('* Decided by: %s. %s' % (x['technique'], x['note'].replace(' Assurance is for', '\n  Assurance is for').split('\n')[0]))
    if c:
        out.append('* Workload: %s.' % c['rule'])
        if c['must_see']:
            out.append('* Observed events that must be non-zero: %s.' % ', '.join(c['must_see']))
    out.append('* What tests cannot reach: ' + x['why'])
    out.append('')
src = open(os.path.join(HERE, 'DESIGN.md')).read()
a = src.split('<!-- props -->')
text = '<!-- props -->\n' + '\n'.join(out) + '<!-- props -->'
if len(a) == 3:
    src = a[0] + text + a[2]
else:
    src = src + '\n## Properties\n\n' + text + '\n'
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(src)
