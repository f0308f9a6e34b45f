#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: planted bugs (from seeded/*/meta.json) and scenarios (from the harnesses)."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
t = '| change | what it breaks | caught by |\n|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    also = m.get('also_caught_by', [])
    t += '| %s | %s | %s |\n' % (os.path.basename(d), m['what_it_breaks'][:160], ', '.join([m['property']] + also))
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda x: x[1] + t + x[2], s, flags=re.S)
t = '| | scenario | what is enumerated | quick | thorough |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/harness/C*.cpp')):
    for n, q, th, w in re.findall(r'MC_SCENARIO\((\w+), (\d+), (\d+), "([^"]*)"', open(f).read()):
        b = lambda x: 'all inputs' if q == th == '0' else ('until exhausted' if int(x) >= 20 else x)
        t += '| %s | %s | %s | %s | %s |\n' % (os.path.basename(f)[:3], n, w, b(q), b(th))
s = re.sub(r'(<!-- scenarios -->\n).*?(<!-- /scenarios -->)', lambda x: x[1] + t + x[2], s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
