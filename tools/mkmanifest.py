import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(H + '/contracts.json'))
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NA = json.load(open(H + '/not_applicable.json')) if os.path.exists(H + '/not_applicable.json') else {}
m = {'version': 1, 'setup_cmd': 'python3-vt setup_check.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and import /repo as it is', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    if p in C:
        c = C[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
                            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                            'technique': 'contract-based deductive verification of the real Python source (symbolic execution to '
                                         'obligations; z3 and non-commutative algebra back ends)',
                            'level': c['level'], 'level_note': c.get('note', '') or
                            'Obligations generated from the current source are discharged for all inputs; assumes ' +
                            '; '.join(c.get('assumptions', []))})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not built yet')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
