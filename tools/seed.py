#!/usr/bin/env python3
"""Keeps and tries planted bugs (development tool; no check uses it).

seed.py keep ID PROPERTY NEEDS BREAKS   the change made in /tmp/seed/repo becomes seeded/ID; tests and demo are confirmed
seed.py verify ID...                    the same confirmation for a kept one
seed.py catch [ID...]                   applies each to /repo, runs the property's quick check, undoes it"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
S = '/tmp/seed/repo'
DEMO = '''#!/bin/bash
# Builds and runs demo.rs against the crate in the current directory; exit 0: behaves as specified.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ublox = { path = "$repo/ublox", default-features = false, features = [FEATURES] }
DEPS
[profile.dev]
debug = 0
EOF
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" ENVIRONMENT cargo run --offline --quiet
rc=$?
cd /
find "$t" -depth -delete
exit $rc
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def tests():
    out = {}
    for f in ['--features ublox/alloc', '', '--no-default-features --features ublox/alloc', '--no-default-features --features ublox/serde', '--no-default-features']:
        rc, o = sh(f'cargo test --workspace --no-fail-fast --offline {f} -- --test-threads 8', S)
        for m in re.finditer(r'^test (\S+.*?) \.\.\. (\w+)', o, re.M):
            out[m.group(1)] = out.get(m.group(1), True) and m.group(2) == 'ok'
        if 'could not compile' in o:
            return None, o[-1500:]
    return out, [k for k, v in out.items() if not v]


def demo(i, expect):
    rc, o = sh(f'bash {V}/seeded/{i}/demo.sh', S, {'DEMO_TARGET': '/tmp/seed/demo-target', 'RUST_BACKTRACE': '0'}, 300)
    if (rc == 0) != expect or 'could not compile' in o:
        print(i, 'DEMO', 'fails on the unchanged tree' if expect else 'passes with the change', rc, o[-1500:])
        return False
    return True


def verify(i):
    d = f'{V}/seeded/{i}'
    sh('git checkout -- .', S)
    ok = demo(i, True)
    rc, o = sh(f'git apply {d}/patch.diff', S)
    if rc:
        print(i, 'PATCH', o)
        return False
    ok = demo(i, False) and ok
    t, bad = tests()
    if t is None or len(t) < 48 or [b for b in bad if b != 'test_parse_big_dump']:
        print(i, 'TESTS', len(t or ()), bad)
        ok = False
    sh('git checkout -- .', S)
    print(i, 'ok' if ok else 'NOT OK')
    return ok


def keep(i, prop, needs, breaks, feats='"std", "serde", "alloc"', deps=''):
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    rc, o = sh('git diff', S)
    if not o.strip():
        sys.exit('no change in ' + S)
    open(d + '/patch.diff', 'w').write(o)
    if not os.path.exists(d + '/demo.sh'):
        open(d + '/demo.sh', 'w').write(DEMO.replace('FEATURES', feats).replace('DEPS', deps).replace('ENVIRONMENT ', 'RUSTFLAGS="--cfg ublox_verif" UBLOX_VERIF_GEN="$here/gen.rs" ' if os.path.exists(d + '/gen.rs') else ''))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return verify(i)


def catch(ids):
    for i in ids:
        d = f'{V}/seeded/{i}'
        prop = json.load(open(d + '/meta.json'))['property']
        rc, o = sh(f'git apply {d}/patch.diff', '/repo')
        if rc:
            print(i, 'PATCH', o)
            continue
        try:
            t = time.time()
            rc, o = sh(f'python3 check.py {prop} quick', V, {'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
        finally:
            sh('git checkout -- .', '/repo')
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        w = o.splitlines()[[k for k, l in enumerate(o.splitlines()) if l.startswith('VIOLATION')][0] + 1][:150] if v else o[-300:]
        print(f'{i} {prop}', 'CAUGHT' if rc == 1 and v else f'MISSED rc {rc}', f'{time.time() - t:.0f}s', w)


a = sys.argv[1:] or ['']
if a[0] == 'keep':
    keep(*[x for x in a[1:] if '=' not in x[:6]], **{x.split('=', 1)[0]: x.split('=', 1)[1] for x in a[1:] if '=' in x[:6]})
elif a[0] == 'verify':
    for i in a[1:] or sorted(os.listdir(V + '/seeded')):
        verify(i)
elif a[0] == 'catch':
    catch(a[1:] or sorted(os.listdir(V + '/seeded')))
