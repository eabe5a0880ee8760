import json, os, subprocess
# property -> (technique, level, note)
CHECKS = json.load(open('tools/checks.json'))
NA = json.load(open('tools/na.json'))
def write(P):
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        i = p['id']
        if i in CHECKS:
            c = CHECKS[i]
            m['checks'].append({'property': i, 'quick_cmd': './check ' + i + ' quick', 'thorough_cmd': './check ' + i + ' thorough',
                                'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    json.dump(m, open('MANIFEST.json', 'w'), indent=1)
