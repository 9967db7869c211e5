"""C18: the same workload under every combination of the crate's features; digests of the results compared.

The probe (harness/src/bin/probe.rs) prints one digest per case and interface class. A class is compared among all
configurations that have the interface. On a difference the case is run again with full text and the first
differing line is reported. If only one side of a difference fails to run, that is a difference too."""
import concurrent.futures as cf, itertools, json, os, subprocess
import ubx
FEATURES = ['std', 'serde', 'alloc']
CONFIGS = [tuple(f for f, b in zip(FEATURES, bits) if b) for bits in itertools.product((1, 0), repeat=3)]
WHO = {'all': lambda c: True, 'serde': lambda c: 'serde' in c, 'alloc': lambda c: 'alloc' in c, 'std': lambda c: 'std' in c,
       'vec': lambda c: 'std' in c or 'alloc' in c, 'vec+serde': lambda c: 'serde' in c and ('std' in c or 'alloc' in c)}
name = lambda c: '+'.join(c) or 'none'


def target(main, c):
    return os.path.join(main.ROOT, 'target', 'c18', name(c))


def build_all(main):
    def one(c):
        t = target(main, c)
        main.fresh(t, ('ublox', 'ublox_derive'), main.HARNESS)
        cmd = ['cargo', 'build', '--offline', '--locked', '--quiet', '--bin', 'probe', '--no-default-features'] + (['--features', ','.join(c)] if c else [])
        r = subprocess.run(cmd, cwd=main.HARNESS, env=main.env(CARGO_TARGET_DIR=t, CARGO_BUILD_JOBS='4'), capture_output=True, text=True, timeout=1500)
        return c, r.returncode, r.stderr
    with cf.ThreadPoolExecutor(4) as ex:
        for c, rc, err in ex.map(one, CONFIGS):
            if rc:
                import sys
                print('\n'.join(l for l in err.splitlines() if l.startswith('error'))[:2000], file=sys.stderr)
                main.die(f'build with features {name(c)} failed: ' + '; '.join([l for l in err.splitlines() if l.startswith('error')][:4]))


def probe(main, c, tier, seed, show=None):
    cmd = [os.path.join(target(main, c), 'debug', 'probe')] + (['--show', *map(str, show)] if show else [])
    r = subprocess.run(cmd, env=main.env(VERIF_TIER=tier, VERIF_SEED=str(seed)), capture_output=True, text=True, errors='replace', timeout=700 if tier == 'quick' else 4 * 3600)
    return r.returncode, r.stdout, r.stderr


def run(main, prop, tier, replay):
    ev = ubx.Evidence(main, prop, tier)
    seed = ev.seed
    build_all(main)
    if replay:
        d = json.load(open(replay))
        tier, seed = d.get('tier', tier), d.get('seed', seed)
    logs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for c, (rc, out, err) in zip(CONFIGS, ex.map(lambda c: probe(main, c, tier, seed), CONFIGS)):
            if rc == 2 or 'HARNESS-ERROR' in err:
                main.die(f'{name(c)}: {err[-500:]}')
            logs[c] = (rc, out, err)
    # a probe that dies in one configuration and not in another is a difference of behaviour
    dead = {c: (rc, err) for c, (rc, out, err) in logs.items() if rc != 0 or not out.endswith('# end\n')}
    if dead and len(dead) < len(CONFIGS):
        ev.violations = 1
        ev.write()
        c = next(iter(dead))
        main.violation(prop, f'with features {name(c)} the workload dies ({dead[c][0]}: {dead[c][1][-300:]}), with others it does not', {'seed': seed, 'tier': tier, 'features': name(c)})
    if dead:
        main.die("the probe dies in every configuration: " + str(next(iter(dead.values())))[:500])
    rows = {c: {} for c in CONFIGS}
    for c in CONFIGS:
        for l in logs[c][1].splitlines():
            if l.startswith('#'):
                continue
            cl, sec, i, h, n = l.split(' ')
            rows[c][(cl, sec, int(i))] = (h, int(n))
    diffs = []
    for cl, has in WHO.items():
        cs = [c for c in CONFIGS if has(c)]
        ref = {k: v for k, v in rows[cs[0]].items() if k[0] == cl}
        if not ref:
            main.die(f'no results of class {cl}')
        for c in cs[1:]:
            mine = {k: v for k, v in rows[c].items() if k[0] == cl}
            if set(mine) != set(ref):
                main.die(f'{name(c)} ran other cases of class {cl}')
            ev.evals += len(ref)
            ev.count(f'cases compared ({cl})', len(ref))
            ev.count(f'result lines compared ({cl})', sum(v[1] for v in ref.values()))
            for k in ref:
                if mine[k][0] != ref[k][0]:
                    diffs.append((k, cs[0], c))
        for k, v in ref.items():
            if v[1] > 0:
                ev.seen.add((cl, k[1], v[0]))
        ev.count(f'configurations with class {cl}', len(cs))
    k = next(iter(ref))
    for show in [('all', 'packet_values_and_texts', 5), ('all', 'built_frames_and_writer_calls', 7), ('all', 'streams_through_a_fixed_buffer', 3)]:
        rc, out, err = probe(main, CONFIGS[-1], tier, seed, show)
        ev.samples.append({'case': ' '.join(map(str, show)), 'features': name(CONFIGS[-1]), 'lines': [l[:200] for l in out.splitlines()[:6]]})
    ev.rule = ('each case of the workload (streams through fixed, user and growable buffers with arbitrary chunking, every packet with valid and invalid payloads, texts, conversions, serialization, '
               'builders with failing writers, configuration items and messages, buffer histories, polls, rates, acknowledgements, aiding data, error texts) is a function of the seed only; '
               'all its observed results are digested; one evaluation = one case compared between two feature configurations; distinct = different digests of cases with results')
    ev.extra = {'configurations': [name(c) for c in CONFIGS]}
    ev.assumptions = ['features of the crate itself (std, serde, alloc in all 8 combinations); development profile', 'results are compared through the digests of their complete text']
    if diffs:
        diffs.sort(key=lambda d: (d[0][1], d[0][2]))
        (cl, sec, i), a, b = diffs[0]
        x, y = (probe(main, c, tier, seed, (cl, sec, i))[1].splitlines() for c in (a, b))
        j = next((j for j in range(max(len(x), len(y))) if x[j:j + 1] != y[j:j + 1]), 0)
        p, q = (x[j] if j < len(x) else '(nothing)'), (y[j] if j < len(y) else '(nothing)')
        m = next((m for m in range(max(len(p), len(q))) if p[m:m + 1] != q[m:m + 1]), 0)
        cut = lambda s: s[max(0, m - 80):m + 200]
        ev.violations = len(diffs)
        ev.write()
        main.violation(prop, f'{len(diffs)} cases differ; {sec} case {i}, line {j}: with {name(a)}: {cut(p)!r}; with {name(b)}: {cut(q)!r}',
                       {'seed': seed, 'tier': tier, 'section': sec, 'index': i, 'features': [name(a), name(b)], 'lines': [p, q]})
    if not replay:
        ev.write()
    return 0
