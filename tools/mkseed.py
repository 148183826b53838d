#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: takes /repo's present diff as the planted bug, writes /verif/seeded/ID with a demonstration
made of the script /tmp/seed/ID.json (configuration, operations with the wanted outcome, observations) and a copy of the
driver sources; the caller resets /repo.  Needs /tmp/seed/ID.txt: line 1 'needs', line 2 'what_it_breaks'."""
import json, os, subprocess, sys, tarfile, io
sid, prop = sys.argv[1:3]
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
if diff.strip():
    open(f'{d}/patch.diff', 'w').write(diff)
needs, breaks = open(f'/tmp/seed/{sid}.txt').read().strip().split('\n')[:2]
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
json.dump(json.load(open(f'/tmp/seed/{sid}.json')), open(f'{d}/script.json', 'w'), indent=1)
open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# Runs script.json (operations with their right outcomes) on the contracts of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
tar xzf "$here/driver.tgz" -C "$tmp" || exit 3
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${SEED_TARGET:-$tmp/target}"
(cd "$tmp/harness" && cargo build --offline -q) || exit 3
"$CARGO_TARGET_DIR/debug/conformance" script "$here/script.json"
''')
with tarfile.open(f'{d}/driver.tgz', 'w:gz') as t:
    def flt(i):
        i.mtime = 0; i.uid = i.gid = 0; i.uname = i.gname = ''
        return i
    fs = ['Cargo.toml', 'Cargo.lock', 'chain/Cargo.toml', 'wraps/Cargo.toml']
    fs += [d + 'src/' + x for d in ['', 'chain/', 'wraps/'] for x in sorted(os.listdir('/verif/harness/' + d + 'src'))]
    for f in fs:
        t.add('/verif/harness/' + f, 'harness/' + f, filter=flt)
print('wrote', d)
