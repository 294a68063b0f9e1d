"""record_fixes.py PROP [N]: records /repo's last N fix: commits under PROP in known_findings.json (development aid)."""
import json, subprocess, sys
p, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
k = json.load(open('known_findings.json'))
have = json.dumps(k)
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '-%d' % n], text=True).splitlines()):
    c, s = l.split(' ', 1)
    if s.startswith('fix: ') and c not in have:
        k['findings'].append({'property': p, 'kind': 'fixed', 'what': 'fixed: property=%s %s %s' % (p, c, s[5:])})
json.dump(k, open('known_findings.json', 'w'), indent=1)
open('known_findings.json', 'a').write('\n')
