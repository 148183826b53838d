#!/usr/bin/env python3
"""Runs TLC over every slice once, so that the checks need not repeat the same exploration (it does not depend on /repo)."""
import os, shutil, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
from check import slices

seed = int(os.environ.get('VERIF_SEED', '1') or 1)
names = [n for n in slices.SLICES if any(n in p['slices'] for p in slices.PROPS.values())]
if sys.argv[1:]:
    names = sys.argv[1:]
names.sort(key=lambda n: -slices.SLICES[n]['quick'].get('cost', 0))
res = {}
sem = threading.Semaphore(6)


def job(n):
    with sem:
        work = os.path.join(HERE, 'work', 'warm-' + n)
        os.makedirs(work, exist_ok=True)
        check.explore(n, 'quick', set(), work, seed, res)
        shutil.rmtree(work, ignore_errors=True)


ths = [threading.Thread(target=job, args=(n,)) for n in names]
for t in ths:
    t.start()
for t in ths:
    t.join()
bad = [n for n in names if isinstance(res[n], Exception)]
for n in bad:
    print(n, res[n])
if '-v' in os.environ.get('WARM', ''):
    for n in sorted(names, key=lambda n: -res[n].get('tlc_s', 0) if n not in bad else 0):
        print(n, res[n] if n in bad else (res[n]['states'], res[n]['tlc_s']))
# drop explorations of older specifications
keep = {n + '-' + check.cache_key(n, check.all_keys(n), seed) for n in names}
if not sys.argv[1:]:
    for f in os.listdir(check.CACHE):
        if f.split('.', 1)[0] not in keep:
            os.remove(os.path.join(check.CACHE, f))
sys.exit(1 if bad else 0)
