#!/usr/bin/env python3
"""finding.py fixed ID COMMIT "what failed"   |   finding.py known ID SIG "what fails" """
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
l = json.load(open(p))
if sys.argv[1] == 'fixed':
    _, _, pid, commit, what = sys.argv
    l.append(dict(status='fixed', property=pid, commit=commit, what=what, line='fixed: property=%s %s %s' % (pid, commit, what)))
else:
    _, _, pid, sig, what = sys.argv
    l.append(dict(status='known', property=pid, sig=sig, what=what))
json.dump(l, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
