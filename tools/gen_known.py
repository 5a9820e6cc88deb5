#!/usr/bin/env python3
"""Writes known-findings.txt: 'fixed:' lines from the fix commits of /repo (+ tools/known.txt for recorded ones)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 'length of a variable-length binary': 'C01', 'accessor of a preplaced field': 'C14', 'netto_size()': 'C02',
 'index sorting of a tuple wrote': 'C05', 'compactify mishandled': 'C05', 'a partially used gap': 'C02',
 'an exchanged chunk': 'C02', 'a refused release': 'C03', 'gaps larger than': 'C02', 'set_unsigned/insert_unsigned': 'C03',
 '128-bit integers': 'C03', 'reset() of a tuple': 'C05', 'automatic growth lost track': 'C04',
 'automatic growth refused': 'C04', 'a failed allocation while composing': 'C03', 'automatic growth let the index': 'C04',
 'validation of a tuple with a full index': 'C02', 'memory exhaustion inside validation': 'C03',
 'validation rejected the image of a tuple of the maximal': 'C02', 'automatic growth of the index could push': 'C04',
}
extra = os.path.join(HERE, 'tools', 'props_of_fixes.txt')
if os.path.exists(extra):
    for l in open(extra):
        if '|' in l:
            k, v = l.rstrip('\n').split('|'); PROP[k] = v
out = ['# known-findings: "known:" lines suppress exactly what they name; "fixed:" lines suppress nothing.']
kn = os.path.join(HERE, 'tools', 'known.txt')
if os.path.exists(kn):
    out += [l.rstrip('\n') for l in open(kn)]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = [v for k, v in PROP.items() if s[5:].startswith(k)]
        assert p, s
        out.append(f'fixed: property={p[0]} {h} {s[5:]}')
open(HERE + '/known-findings.txt', 'w').write('\n'.join(out) + '\n')
