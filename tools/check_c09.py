"""C09 in three layers: guard pages and memory-content differencing (harness/src/bin/c09.rs, plain build), the whole
workload of harness/src/bin/probe.rs under AddressSanitizer, and a smaller share of it under Miri (half of the shares
with Stacked Borrows, half with Tree Borrows)."""
import concurrent.futures as cf, json, os, re, resource, subprocess
TRIPLE = 'x86_64-unknown-linux-gnu'


def miri_env(m, **kw):
    return m.env(CARGO_TARGET_DIR=os.path.join(m.TARGET, 'miri'), **kw)


def build_all(m):
    t = os.path.join(m.TARGET, 'asan')
    m.build(['probe'], target=t, toolchain=('+nightly',), extra=('--target', TRIPLE), RUSTFLAGS='-Zsanitizer=address')
    m.fresh(os.path.join(m.TARGET, 'miri'), ('ublox', 'ublox_derive'), m.HARNESS, ('+nightly',))
    r = subprocess.run(MIRI, cwd=m.HARNESS, env=miri_env(m, MIRIFLAGS='-Zmiri-disable-isolation', PROBE_CASES='0'), capture_output=True, text=True, timeout=800)
    if r.returncode:
        print(r.stderr[-3000:])
        m.die('the interpreted workload does not build or start')
    m.build(['c09'])
    return os.path.join(t, TRIPLE, 'debug', 'probe')


MIRI = ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--quiet', '--bin', 'probe']
UB = re.compile(r'error: Undefined Behavior: ?(.*)')
ASAN = re.compile(r'ERROR: AddressSanitizer: ?(.*)')


def run(m, prop, tier, replay):
    exe = build_all(m)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    d = json.load(open(replay)) if replay else {}
    layer = d.get('layer', 'pages' if 'section' in d else None)
    if replay:
        seed, tier = d.get('seed', seed), d.get('tier', tier)
    n = 8
    quick = tier == 'quick'
    cases = {'asan': 12_000 if quick else 300_000, 'miri': 24 if quick else 1600}
    limit = 700 if quick else 5 * 3600

    def share(a):
        kind, i = a
        e = dict(VERIF_TIER=tier, VERIF_SEED=str(seed), PROBE_CASES=str(cases[kind]), PROBE_PART=f'{i}/{n}')
        if kind == 'asan':
            cmd, e = [exe], m.env(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', **e)
        else:
            # leaks are no undefined behaviour
            cmd, e = MIRI, miri_env(m, PROBE_SHORT='1', MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks' + (' -Zmiri-tree-borrows' if i % 2 else ''), **e)
        try:
            r = subprocess.run(cmd, cwd=m.HARNESS, env=e, capture_output=True, text=True, errors='replace', timeout=limit)
        except subprocess.TimeoutExpired:
            return kind, i, None, '', 'time limit'
        return kind, i, r.returncode, r.stdout, r.stderr

    def judge(res):
        """Violation text, or None."""
        kind, i, rc, out, err = res
        if rc == 0 and out.endswith('# end\n'):
            return None
        hit = (ASAN if kind == 'asan' else UB).search(err)
        if hit:
            loc = re.search(r'--> (\S+)', err[hit.start():]) if kind == 'miri' else None
            frames = [l.strip() for l in err.splitlines() if re.match(r'\s*#\d+ .*ublox', l)][:3]
            return f'{"Miri" if kind == "miri" else "AddressSanitizer"}: {hit.group(1)[:400]} {loc.group(1) if loc else " ".join(frames)[:400]}'
        if 'GUARD ' in err:
            return err[err.index('GUARD '):][:300]
        if rc is not None and rc < 0:
            return f'the workload died with signal {-rc} under {kind}: {err[-300:]}'
        m.die(f'{kind} share {i} ended with {rc}: {err[-600:]}')

    if replay and layer != 'pages':
        v = judge(share((layer, d['share'])))
        print('replay:', v or 'no violation')
        if v:
            m.violation(prop, v, {k: d[k] for k in ('layer', 'share', 'seed', 'tier')})
        return 0
    # layer 1; writes the evidence file on success and on its own violations
    m.run_monitor(prop, [os.path.join(m.TARGET, 'debug', 'c09')], tier, replay, timeout=limit)[0] and os._exit(1)
    if replay:
        return 0
    path = os.path.join(m.ROOT, 'evidence', prop + '.json')
    ev = json.load(open(path))
    cov = ev['coverage']
    import time
    with cf.ThreadPoolExecutor(n) as ex:
        for kind in ('asan', 'miri'):
            t0, lines, evals, secs = time.time(), set(), 0, {}
            bad = None
            for res in ex.map(share, [(kind, i) for i in range(n)]):
                v = judge(res)
                if v and not bad:
                    bad = (v, res[1])
                for l in res[3].splitlines():
                    if l.startswith('#'):
                        continue
                    cl, sec, i, h, k = l.split(' ')
                    evals += 1
                    secs[sec] = secs.get(sec, 0) + 1
                    if k != '0':
                        lines.add((sec, h))
            name = {'asan': 'under AddressSanitizer', 'miri': 'under Miri'}[kind]
            cov['evaluations'] += evals
            cov['distinct_nontrivial'] += len(lines)
            cov['sections'].append({'section': 'whole workload ' + name, 'evaluations': evals, 'distinct_nontrivial': len(lines), 'violations': int(bool(bad)), 'wall_s': time.time() - t0, 'cases': secs})
            cov['observed_events']['cases ' + name] = evals
            if bad:
                ev['violations'] += 1
                json.dump(ev, open(path, 'w'), indent=1)
                m.violation(prop, bad[0], {'layer': kind, 'share': bad[1], 'seed': seed, 'tier': tier})
            if evals < 100:
                m.die(f'only {evals} cases ran {name}')
    cov['rule'] += (' | whole workload under AddressSanitizer and under Miri: the cases of C18 (streams, all packets, texts, conversions, builders, failing writers, configuration values, buffer histories, serialization) '
                    'and short parser histories inside guarded memory; distinct = different digests of the results of cases that had results')
    ev['assumptions'] += ['AddressSanitizer: the library and harness are instrumented, the prebuilt standard library only through its intercepted calls', 'Miri: shares with even numbers use Stacked Borrows, odd ones Tree Borrows']
    json.dump(ev, open(path, 'w'), indent=1)
    print(f"C09: {cov['evaluations']} evaluations in all three layers")
    return 0
