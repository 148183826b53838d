#!/usr/bin/env python3
"""Definitions of the planted bugs: source edits and the scripts that demonstrate them.
seeds.py [ID...] regenerates /verif/seeded/ID (needs a clean /repo, leaves it clean)."""
import json, os, subprocess, sys, copy
ORDER = []
CFG0 = dict(kind='denom', ws='1', sc={'cash': '1'}, gov=dict(q=50, thr=50, veto=-1, dur=2, mindep=-1, early=False),
            council=dict(on=False, members=[], q=0, thr=0, allowed=[]), ul=dict(k='height', n=2), members=[], white=[], nftw=[], gwhite=[], gnftw=[],
            minw=-1, att='', bal={'dao': {'u1': 0}}, nft={}, setup=[], versions=[[[1, 2, 1], 1]], start=0, dao2=False, hist=False, round=False)


def cfg(**k):
    c = copy.deepcopy(CFG0)
    for a, b in k.items():
        if a == 'gov':
            c['gov'].update(b)
        else:
            c[a] = b
    return c


def stake(u, n, want='ok', **k): return dict(op='stake', by=u, **{'for': u}, amt=n, asset='dao', want=want) | k
def unstake(u, n, want='ok'): return dict(op='unstake', by=u, amt=n, want=want)
def tick(t): return dict(op='tick', to=t)
def propose(u, acts, want='ok', **k): return dict(op='propose', by=u, acts=acts, via='none', dep=0, dasset='dao', dtok=[], appr=False, own='none', want=want) | k
def vote(u, p, o, want='ok'): return dict(op='vote', by=u, p=p, o=o, want=want)
def cvote(u, p, o, want='ok'): return dict(op='cvote', by=u, p=p, o=o, want=want)
def execp(u, p, want='ok'): return dict(op='exec', by=u, p=p, want=want)
def dist(u, a, n, want='ok'): return dict(op='dist', by=u, asset=a, amt=n, want=want)
def claimrew(u, assets, want='ok', user=None): return dict(op='claimrew', by=u, user=user or u, assets=assets, want=want)
def obs(k, exp): return dict(obs=k, exp=exp)
def q(c, msg, at, val): return dict(obs='query', exp=dict(c=c, msg=msg, at=at, **{'is': val}))
def raw(by, c, msg, want='ok', funds=()): return dict(op='raw', by=by, c=c, msg=msg, funds=[list(f) for f in funds], want=want)
def meta(name): return dict(a='meta', f=dict(name=name))


def REQ(**k):
    r = dict(name='A', kind='multisig', ul=dict(k='height', n=2), gov=dict(q=50, thr=50, veto=-1, dur=2, mindep=-1, early=False), council=dict(on=False, members=[], q=0, thr=0, allowed=[]),
             members=[['u1', 1], ['u2', 2]], tok='', daobal=-1, mint='none', mkt='none', white=[], nftw=[], minw=-1, att='', cross=[])
    r.update(k)
    return r


SEEDS = {}


def seed(sid, prop, edits, config, ops, needs, breaks):
    SEEDS[sid] = (prop, edits, config, ops, needs, breaks)


exec(open('/verif/tools/seed_defs.py').read())


def make(sid):
    prop, edits, config, ops, needs, breaks = SEEDS[sid]
    if subprocess.call(['git', '-C', '/repo', 'diff', '--quiet']):
        sys.exit('/repo is dirty')
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, f, 'occurrences:', s.count(old)); return
            open(p, 'w').write(s.replace(old, new))
        os.makedirs('/tmp/seed', exist_ok=True)
        json.dump(dict(cfg=config, ops=ops), open(f'/tmp/seed/{sid}.json', 'w'))
        open(f'/tmp/seed/{sid}.txt', 'w').write(needs.replace('\n', ' ') + '\n' + breaks.replace('\n', ' ') + '\n')
        subprocess.check_call(['python3', '/verif/tools/mkseed.py', sid, prop])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])


if __name__ == '__main__':
    for s in sys.argv[1:] or list(SEEDS):
        make(s)
