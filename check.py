#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree, lets TLC explore the
property's slices of the TLA+ specification (checking the specification's own invariants), and replays
every explored transition on the real contracts.

usage: check.py PROPERTY [quick|thorough]
exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself failed."""
import gzip, hashlib, json, os, resource, subprocess, sys, time, shutil, threading, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import slices

JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOISE = re.compile(r'^(Parsing|Semantic|Linting|Progress|TLC2|Running|Computing|Starting|Finished|Warning: Please run)')


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset, list, tuple)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    return '"%s"' % v


class Failed(Exception):
    pass


def write_cfg(path, sl, depth, keys, sim, consts=None):
    c = ['CONSTANTS']
    for a, b in sl.get('subst', slices.DAO_SUBST).items():
        c.append(f'  {a} <- {b}')
    for a, b in dict(sl.get('consts', {}), **(consts or {})).items():
        c.append(f'  {a} = {tla(b)}')
    c.append(f'  Depth = {depth}')
    c.append(f'  ObsKeys = {tla(keys)}')
    c += ['INIT Init', 'NEXT Next']
    if not sim:
        c.append('VIEW View')
    c.append('INVARIANT EmitState')
    for i in sl.get('invs', []):
        c.append('INVARIANT ' + i)
    for i in sl.get('acts', []):
        c.append('PROPERTY ' + i)
    c += ['ACTION_CONSTRAINT EmitEdge', 'CHECK_DEADLOCK FALSE']
    open(path, 'w').write('\n'.join(c) + '\n')


def keys_of(keys, sl):
    return (set(keys) - set(sl.get('less', '').split())) | set(sl.get('obs', '').split())


def all_keys(name):
    """everything any property observes in this slice"""
    sl = slices.SLICES[name]
    return set().union(*[keys_of(p['obs'], sl) for p in slices.PROPS.values() if name in p['slices']], set(sl.get('obs', '').split()))


def params(sl, tier):
    p = dict(sl.get('quick', {}))
    if tier == 'thorough':
        p.update(sl.get('thorough', {}))
    return p


CACHE = os.path.join(HERE, 'cache')


def cache_key(name, keys, seed):
    """the explored part of the specification depends on nothing but this"""
    sl = slices.SLICES[name]
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(HERE, 'spec'))):
        if f.endswith('.tla'):
            h.update(f.encode() + b'\0' + open(os.path.join(HERE, 'spec', f), 'rb').read() + b'\0')
    p = params(sl, 'quick')
    h.update(json.dumps([sl['mod'], sl.get('subst', slices.DAO_SUBST), sl.get('consts', {}), sorted(sl.get('invs', [])), sorted(sl.get('acts', [])), sorted(keys), p,
                         seed if p.get('sim') else 0], sort_keys=True, default=str).encode())
    return h.hexdigest()[:24]


def explore(name, tier, keys, work, seed, res):
    """TLC's exploration of a slice: the model checker is run unless the very same exploration is at hand"""
    if tier != 'quick':
        return run_tlc(name, slices.SLICES[name], tier, keys, work, seed, res)
    keys = all_keys(name) | keys
    base = os.path.join(CACHE, name + '-' + cache_key(name, keys, seed))
    out = os.path.join(work, name + '.out')
    if os.path.exists(base + '.json'):
        with gzip.open(base + '.out.gz') as f, open(out, 'wb') as g:
            shutil.copyfileobj(f, g, 1 << 20)
        res[name] = dict(json.load(open(base + '.json')), out=out, cached=True)
        return
    run_tlc(name, slices.SLICES[name], tier, keys, work, seed, res)
    if isinstance(res[name], Failed):
        return
    os.makedirs(CACHE, exist_ok=True)
    tmp = '%s.%d' % (base, os.getpid())
    # keep only what the engine reads
    with open(res[name]['out'], 'rb') as f, gzip.open(tmp, 'wb', compresslevel=1) as g:
        for line in f:
            if line.startswith(b'"{'):
                g.write(line)
    os.rename(tmp, base + '.out.gz')
    json.dump({k: v for k, v in res[name].items() if k != 'out'}, open(tmp, 'w'))
    os.rename(tmp, base + '.json')


def run_tlc(name, sl, tier, keys, work, seed, res):
    try:
        p = params(sl, tier)
        d = os.path.join(work, 'tlc-' + name)
        os.makedirs(d, exist_ok=True)
        # TLC writes next to the specification: give every run its own copy
        for f in os.listdir(os.path.join(HERE, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(HERE, 'spec', f), d)
        sim = p.get('sim')
        write_cfg(os.path.join(d, 'run.cfg'), sl, p.get('depth', 4), keys, sim, p.get('consts'))
        out = os.path.join(work, name + '.out')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx%s' % p.get('mem', '3g'), '-Djava.io.tmpdir=' + d, '-cp', JAVA_CP,
               'tlc2.TLC', '-noGenerateSpecTE', '-workers', '1', '-config', 'run.cfg', '-metadir', os.path.join(d, 'md')]
        if sim:
            cmd += ['-simulate', 'num=%d' % sim[0], '-depth', str(sim[1]), '-seed', str(seed * 7919 + len(name))]
        cmd.append(sl['mod'] + '.tla')
        t = time.time()
        with open(out, 'w') as fh:
            rc = subprocess.call(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT)
        txt = []
        states = gen = 0
        with open(out) as fh:
            for line in fh:
                if line.startswith('"{'):
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct states found', line) or re.match(r'Progress: (\d+) states checked', line)
                if m:
                    gen = int(m.group(1))
                    states = int(m.group(m.lastindex))
                m = re.match(r'The number of states generated: (\d+)', line)
                if m:
                    gen = states = int(m.group(1))
                if not NOISE.match(line):
                    txt.append(line)
        text = ''.join(txt)
        bad = rc != 0 or 'Error:' in text
        if bad:
            raise Failed(f'TLC reports a problem in slice {name} (specification, not code):\n{text[-4000:]}')
        shutil.rmtree(d, ignore_errors=True)
        res[name] = dict(out=out, states=states, generated=gen, tlc_s=round(time.time() - t, 1), sim=bool(sim), params=p)
    except Failed as e:
        res[name] = e
    except Exception as e:  # noqa
        res[name] = Failed(f'{name}: {e!r}')


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('VERIF_SLICES')
    t0 = time.time()
    spec = slices.PROPS[prop]
    work = os.path.join(HERE, 'work', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    names = [n for n in spec['slices'] if not only or n in only.split(',')]
    # build of the harness in parallel with the model checker
    prof = [] if tier == 'quick' else ['--profile', 'deep']
    blog = open(os.path.join(work, 'build.log'), 'w')
    build = subprocess.Popen(['bash', os.path.join(HERE, 'build.sh')] + prof, stdout=blog, stderr=subprocess.STDOUT)
    res = {}
    sem = threading.Semaphore(4 if tier == 'quick' else 3)

    def job(n):
        with sem:
            explore(n, tier, keys_of(spec['obs'], slices.SLICES[n]), work, seed, res)
    ths = [threading.Thread(target=job, args=(n,)) for n in names]
    for t in ths:
        t.start()
    rc = build.wait()
    tbuild = time.time() - t0
    if rc != 0:
        print(open(os.path.join(work, 'build.log')).read()[-3000:])
        print('CHECK-ERROR: the harness does not build against /repo')
        return 2
    binary = os.path.join(HERE, 'target', 'debug' if tier == 'quick' else 'deep', 'conformance')
    stats, viol = {}, None
    for n, t in zip(names, ths):
        t.join()
        if isinstance(res[n], Failed):
            print(res[n])
            print('CHECK-ERROR: specification run failed')
            return 2
        if viol:
            continue
        p = res[n]['params']
        rp = os.path.join(work, f'replay-{n}.json')
        st = os.path.join(work, f'stats-{n}.json')
        budget = p.get('budget', 60 if tier == 'quick' else 1500)
        r = subprocess.run([binary, 'run', '--in', res[n]['out'], '--stats', st, '--replay', rp, '--reps', str(p.get('reps', 1)),
                            '--budget', str(budget), '--keys', ' '.join(sorted(keys_of(spec['obs'], slices.SLICES[n])))],
                           capture_output=True, text=True, env=dict(os.environ, RUST_MIN_STACK=str(64 << 20)),
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30)))
        if r.returncode == 1 and 'DIVERGENCE' in r.stdout:
            viol = (n, rp)
            i = r.stdout.index('DIVERGENCE')
            print(f'slice {n}: ' + r.stdout[i:][:3000])
        elif r.returncode in (-6, -11):
            # endless recursion or memory use inside a contract
            viol = (n, rp)
            json.dump(dict(divergence='the contracts crashed the process (endless recursion or memory use)', stderr=r.stderr[-2000:]), open(rp, 'w'))
            json.dump(dict(samples=[], spec_states=0, spec_edges=0, spec_states_reached=0, spec_edges_executed=0, impl_states=0, executions=0,
                           accepted=0, refused=0, observations_compared=0, complete=False), open(st, 'w'))
            print(f'slice {n}: DIVERGENCE: the contracts crashed the process: ' + r.stderr[-500:])
        elif r.returncode != 0:
            print(r.stdout[-2000:], r.stderr[-2000:])
            print(f'CHECK-ERROR: conformance run of slice {n} failed')
            return 2
        stats[n] = json.load(open(st))
        stats[n]['tlc_s'] = res[n]['tlc_s']
        stats[n]['tlc_generated'] = res[n]['generated']
        stats[n]['tlc_from_setup'] = bool(res[n].get('cached'))
        if not viol and tier != 'quick':
            os.remove(res[n]['out'])
    wall = round(time.time() - t0, 1)
    samples = []
    for n, s in stats.items():
        samples += s.pop('samples', [])[:2]
    cov = dict(
        states=sum(s['spec_states'] for s in stats.values()),
        transitions=sum(s['spec_edges'] for s in stats.values()),
        traces_validated_against_impl=sum(s['executions'] for s in stats.values()),
        implementation_states=sum(s['impl_states'] for s in stats.values()),
        observations_compared=sum(s['observations_compared'] for s in stats.values()),
        operations_accepted=sum(s['accepted'] for s in stats.values()),
        operations_refused=sum(s['refused'] for s in stats.values()),
        specification_invariants=sorted({i for n in names for i in slices.SLICES[n].get('invs', []) + slices.SLICES[n].get('acts', [])}),
        observed=sorted(spec['obs']), slices=stats, build_s=round(tbuild, 1), samples=samples[:6])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=wall, violations=1 if viol else 0,
              assumptions=['the chain is simulated by cw-multi-test with stand-ins for IBC and the ics721 bridge',
                           'bounded: the histories, users and amounts of the listed slices'])
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        if l.startswith('finding: property=%s ' % prop):
            print('KNOWN-FINDING: ' + l[len('finding: '):].strip())
    if viol:
        keep = os.path.join(HERE, 'evidence', f'replay-{prop}.json')
        shutil.copy(viol[1], keep)
        print(f'VIOLATION property={prop} replay={keep}')
        return 1
    print(f'{prop} {tier}: held; {cov["states"]} specification states, {cov["transitions"]} transitions, '
          f'{cov["traces_validated_against_impl"]} executions on the code, build {tbuild:.0f}s, {wall}s')
    shutil.rmtree(work, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
