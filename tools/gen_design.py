#!/usr/bin/env python3
"""Regenerates the slice table of DESIGN.md from tools/slices.py and the evidence of the last quick runs."""
import json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import slices
import collections
use = collections.defaultdict(list)
for p, d in slices.PROPS.items():
    for n in d['slices']:
        use[n].append(p)


def bounds(q):
    return 'random: %d histories of %d steps' % q['sim'] if q.get('sim') else 'depth %d' % q['depth']


cnt = {}
for p in slices.PROPS:
    f = os.path.join(H, '..', 'evidence', p + '.json')
    if os.path.exists(f):
        for n, s in json.load(open(f))['coverage']['slices'].items():
            cnt[n] = (s['spec_states'], s['spec_edges'])
out = ['| slice | about | quick | thorough | states / transitions (quick) | used by |', '|---|---|---|---|---|---|']
for n, s in slices.SLICES.items():
    if not use[n]:
        continue
    t = open(os.path.join(H, '..', 'spec', s['mod'] + '.tla')).read()
    m = re.search(r'\(\* ?(.*?) ?\*\)', t, re.S)
    a = ' '.join(m.group(1).split()) if m else ''
    c = '%d / %d' % cnt[n] if n in cnt else ''
    out.append('| %s | %s | %s | %s | %s | %s |' % (n, a, bounds(s['quick']), bounds(dict(s['quick'], **s['thorough'])), c, ' '.join(use[n])))
f = os.path.join(H, '..', 'DESIGN.md')
t = open(f).read()
a = '<!-- slices: generated by tools/gen_design.py -->\n'
i, j = t.index(a) + len(a), t.index('<!-- end slices -->')
open(f, 'w').write(t[:i] + '\n'.join(out) + '\n' + t[j:])

# planted bugs
import glob
res = {}
r = os.path.join(H, 'seed_results.txt')
if os.path.exists(r):
    for l in open(r):
        w = l.split()
        if w:
            res[w[0]] = ' '.join(w[1:])
rows = ['| bug | property | what it breaks | manifests with | outcome |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(H, '..', 'seeded', '*', 'meta.json')), key=lambda m: (json.load(open(m))['property'], m)):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'], d['needs'], res.get(n, '')))
t = open(f).read()
a = '<!-- seeds: generated by tools/gen_design.py -->\n'
i, j = t.index(a) + len(a), t.index('<!-- end seeds -->')
open(f, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
