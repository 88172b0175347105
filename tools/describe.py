#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ('The suite runs six fixed programs through the library and compares one unit-test output; it fixes one '
         'option set and never looks at the instance order. ')


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='model_checking', state=None,
         observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [state]
    if observe: a['observe_at'] = [observe]
    a['hook_needed'] = None
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                why_tests_cant=why, anchors=a, _t=technique, _n=note, _l=level)


from table import TABLE, NOT_APPLICABLE  # noqa
ROWS = [prop(**r) for r in TABLE]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for r in ROWS:
        f.write(json.dumps({k: v for k, v in r.items() if not k.startswith('_')}) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = {'version': 1, 'setup_cmd': 'make -s -j8 -C /verif/harness',
     'checks': [{'property': r['id'], 'quick_cmd': 'python3 /verif/checks/check.py %s quick' % r['id'],
                 'thorough_cmd': 'python3 /verif/checks/check.py %s thorough' % r['id'],
                 'evidence_file': 'evidence/%s.json' % r['id'],
                 'technique': r['_t'], 'level': r['_l'], 'level_note': r['_n']} for r in ROWS if r['id'] not in na],
     'not_applicable': NOT_APPLICABLE}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(ROWS), 'properties')
