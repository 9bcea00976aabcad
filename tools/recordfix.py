"""recordfix.py PROP WORDS... : append the fix commit whose message contains
WORDS to known_findings.json."""
import json, subprocess, sys
k = json.load(open('known_findings.json'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
        capture_output=True, text=True).stdout.splitlines()
r = [x for x in log if ' '.join(sys.argv[2:]) in x]
assert len(r) == 1, r
h, msg = r[0].split(' ', 1)
k['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h,
        msg.replace('fix: ', '')))
json.dump(k, open('known_findings.json', 'w'), indent=1)
