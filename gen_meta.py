#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
G = 'mpact/sim/generic/'
D = 'mpact/sim/decoder/'
M = 'mpact/sim/util/memory/'
U = 'mpact/sim/util/'
U = 'mpact/sim/util/'
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, technique, note, level='exploration', hook=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, hook=hook, na=na))


exec(open(os.path.join(HERE, 'properties_src.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps({
            'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['text']},
            'why_tests_cant': x['why'],
            'anchors': {'files': x['files'], 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                        'observe_at': x['observe'], 'hook_needed': x['hook']}}) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 setup_check.py',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public interfaces only and build /repo with sanitizers out of tree',
              'source_commits': []},
    'checks': [{
        'property': x['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % x['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % x['id'],
        'technique': x['technique'], 'level': x['level'], 'level_note': x['note']} for x in P if not x['na']],
    'not_applicable': [{'property': x['id'], 'reason': x['na']} for x in P if x['na']],
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties')
