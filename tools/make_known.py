#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.txt: repaired defects (from the fix: commits in /repo) and recorded ones"""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {'b8fa0d0': 'C07', '1b9f12f': 'C21', '1d329db': 'C09', '87c3aa3': 'C09', '907f8da': 'C09', '6e70bc4': 'C05', 'f7e1c73': 'C05',
        '2164897': 'C03', '98c8789': 'C08', 'df0dc05': 'C11', '966df59': 'C12', '8d1fd63': 'C18', 'c579a1d': 'C12', '563a887': 'C18',
        '737e6c5': 'C12', '13e3243': 'C10', 'f6275b8': 'C17', 'f359ece': 'C23', '476d705': 'C16', 'fd4a131': 'C23', '27def2f': 'C21',
        '60cd2e3': 'C12'}
EXTRA = open(os.path.join(V, 'tools', 'known_extra.txt')).read() if os.path.exists(os.path.join(V, 'tools', 'known_extra.txt')) else ''
for l in EXTRA.splitlines():
    if l.startswith('commit '):
        _, c, p = l.split()
        PROP[c] = p
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout
out = ['# Genuine defects of prmiles/pymcmcstat found by the checks.',
       '# fixed: repaired in /repo by the named commit; the checks report them again if they return.',
       '# known: not repaired; key = family/clause reported by the check, :: what fails.']
for l in log.splitlines():
    h, s = l.split(' ', 1)
    p = next((PROP[k] for k in PROP if h.startswith(k)), None)
    assert p, l
    out.append('fixed: property=%s %s %s' % (p, h, s[5:]))
out += [l for l in EXTRA.splitlines() if l.startswith('known:')]
open(os.path.join(V, 'KNOWN_FINDINGS.txt'), 'w').write('\n'.join(out) + '\n')
