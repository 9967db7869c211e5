#!/usr/bin/env python3
"""Runs one check: check.py <property> [quick|thorough] [--replay FILE]

Builds the harness against /repo's current tree, runs the monitor and maps its end:
exit 0 held, exit 1 + VIOLATION line broken, exit 2 anything else (build failure, time-out, harness error)."""
import hashlib, json, os, re, resource, signal, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.path.join(ROOT, 'target')
HARNESS = os.path.join(ROOT, 'harness')
sys.path.insert(0, os.path.join(ROOT, 'tools'))


def die(msg):
    print('ERROR ' + msg, file=sys.stderr)
    sys.exit(2)


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', VERIF_ROOT=ROOT, RUST_BACKTRACE='0')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['CARGO_TARGET_DIR'] = TARGET
    e.update(kw)
    return e


def tree_hash():
    """Content of everything the build reads from the repository."""
    h = hashlib.sha256()
    for sub in ('ublox', 'ublox_derive', 'examples'):
        for d, ds, fs in os.walk(os.path.join(REPO, sub)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def fresh(target, packages, cwd, toolchain=()):
    """Cargo judges staleness by time stamps; a restored tree may carry old ones, so compare contents."""
    stamp = os.path.join(target, '.repo-content')
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        if old is not None:
            for p in packages:
                subprocess.run(['cargo', *toolchain, 'clean', '-p', p], cwd=cwd, env=env(CARGO_TARGET_DIR=target), capture_output=True)
        os.makedirs(target, exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(now)


def build(bins, cwd=HARNESS, target=TARGET, packages=('ublox', 'ublox_derive'), features=None, toolchain=(), extra=(), timeout=700, **kw):
    fresh(target, packages, cwd, toolchain)
    cmd = ['cargo', *toolchain, 'build', '--offline', '--locked', '--quiet', *extra]
    for b in bins:
        cmd += ['--bin', b]
    if features is not None:
        cmd += ['--no-default-features', '--features', ','.join(features)]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env(CARGO_TARGET_DIR=target, **kw), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die('build timed out')
    if r.returncode != 0:
        errs = [l for l in r.stderr.splitlines() if l.startswith('error')]
        print(r.stderr[-6000:], file=sys.stderr)
        die('build failed: ' + '; '.join(errs[:5]))


def violation(prop, what, data):
    """A violation found by the driver itself (crash under a sanitizer, ...)."""
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'what': what, **data}, f, indent=1)
    print(f'VIOLATION property={prop} replay={path}')
    print('  ' + what)
    sys.exit(1)


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def run_monitor(prop, cmd, tier, replay=None, timeout=None, cwd=ROOT, mem_gb=12, **kw):
    """Runs a monitor binary. Its own exit codes pass through; a crash of the code under test is a violation."""
    e = env(VERIF_TIER=tier, **kw)
    if replay:
        cmd = cmd + ['--replay', replay]
    t = timeout or (600 if tier == 'quick' else 6 * 3600)

    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=lim, start_new_session=True)
    try:
        out, err = p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        die(f'{prop}: time limit of {t} s reached (inconclusive)')
    sys.stdout.write(out)
    sys.stderr.write(err[-8000:])
    rc = p.returncode
    if rc < 0 and -rc in CRASH:
        violation(prop, f'the code under test died with {signal.Signals(-rc).name}: {err.strip()[-600:]}', {'signal': -rc, 'seed': e.get('VERIF_SEED', '1'), 'tier': tier, 'stderr': err[-4000:]})
    if rc == 1 and f'VIOLATION property={prop} ' not in out:
        die(f'{prop}: exit 1 without a violation')
    if rc not in (0, 1):
        die(f'{prop}: monitor ended with {rc}')
    return rc, out, err


def plain(prop, tier, replay):
    b = prop.lower()
    build([b])
    return run_monitor(prop, [os.path.join(TARGET, 'debug', b)], tier, replay)[0]


def main():
    a = sys.argv[1:]
    if not a:
        die('usage: check.py <property> [quick|thorough] [--replay FILE]')
    prop = a[0]
    replay = None
    if '--replay' in a:
        replay = os.path.abspath(a[a.index('--replay') + 1])
    tier = a[1] if len(a) > 1 and a[1] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    os.chdir(ROOT)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    import importlib
    name = 'check_' + prop.lower()
    if os.path.exists(os.path.join(ROOT, 'tools', name + '.py')):
        sys.exit(importlib.import_module(name).run(sys.modules['__main__'], prop, tier, replay))
    sys.exit(plain(prop, tier, replay))


if __name__ == '__main__':
    main()
