#!/usr/bin/env python3
"""fills the two tables of DESIGN.md from the contracts, notes and planted bugs (run with python3-vt)"""
import importlib, json, os, pkgutil, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import xvc.prove, xvc.contracts, xvc.spec as S
from xvc.notes import P
for m in pkgutil.iter_modules(xvc.contracts.__path__):
    importlib.import_module('xvc.contracts.' + m.name)
by = {}
for n, c in S.REG.items():
    for p in c.props:
        by.setdefault(p, set()).add(c.fn.replace('SingleClassProbabilisticModel', 'SingleClassPM'))
BOUNDED = json.load(open(os.path.join(HERE, 'bounded.json')))
rows = ["| id | level | functions under contract (any size, all obligations discharged) | left to the bounded driver |", "|---|---|---|---|"]
for i in range(1, 22):
    p = 'C%02d' % i
    if p == 'C20':
        rows.append("| C20 | not applicable | | |")
        continue
    rows.append("| %s | %s | %s | %s |" % (p, 'proof' if p in P else 'bounded', ', '.join('`%s`' % f for f in sorted(by.get(p, ()))) or '-',
                                          BOUNDED.get(p, '')))
rs = ["| planted bug | needs | driver | proof |", "|---|---|---|---|"]
try:
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
except OSError:
    caught = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    c = caught.get(d, {})
    rs.append("| %s | %s | %s | %s |" % (d, m['needs'].replace('|', '/'), c.get('driver', 'caught'), c.get('proof', '-')))
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
s = re.sub(r'<!--T-->.*<!--/T-->', lambda m: '<!--T-->\n' + '\n'.join(rows) + '\n<!--/T-->', s, flags=re.S)
s = re.sub(r'<!--S-->.*<!--/S-->', lambda m: '<!--S-->\n' + '\n'.join(rs) + '\n<!--/S-->', s, flags=re.S)
open(f, 'w').write(s)
