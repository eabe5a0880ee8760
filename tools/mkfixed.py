"""Rebuilds the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, subprocess
PROP = json.load(open('tools/fixed_props.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for l in log:
    h, m = l.split(' ', 1)
    if m.startswith('fix: '):
        p = PROP.get(m[5:])
        assert p, m
        out.append('fixed: property=%s %s %s' % (p, h, m[5:]))
k = json.load(open('known_findings.json'))
k['fixed'] = out
json.dump(k, open('known_findings.json', 'w'), indent=1, ensure_ascii=False)
