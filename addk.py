#!/usr/bin/env python3
"""addk.py fixed <prop> <commit> <what> | known <prop> <signature regex> <what> : edits known_findings.json (by hand, never from a check)."""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.json')
d = json.load(open(f))
kind, prop, x, what = sys.argv[1:5]
if kind == 'fixed':
    d['findings'].append(dict(property=prop, status='fixed', commit=x, what=what, line='fixed: property=%s %s %s' % (prop, x, what)))
else:
    d['findings'].append(dict(property=prop, status='known', signature=x, what=what))
json.dump(d, open(f, 'w'), indent=1)
