#!/opt/venv/bin/python
import os, json, sys
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(verif, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': p['state']}]
        if p['observe']:
            a['observe_at'] = [p['observe']]
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p['id'], 'quick_cmd': './check.py %s quick' % p['id'], 'thorough_cmd': './check.py %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                  for p in P if p['claimed']],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']],
       'notes': 'No hooks in /repo: every check drives the public interfaces; the extensions are rebuilt out of tree from /repo on every run. Known and repaired defects: known_findings.json.'}
with open(os.path.join(verif, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
for p in P:
    import glob
    assert not p['claimed'] or len(glob.glob(os.path.join(verif, 'checks', p['id']+'_*.py'))) == 1, p['id']
