"""C27 in two layers: the monitor of harness/src/bin/c27.rs as it is, and its sections with threads once more under
ThreadSanitizer (standard library rebuilt with it)."""
import json, os, re, subprocess, time
TRIPLE = 'x86_64-unknown-linux-gnu'
RACE = re.compile(r'WARNING: ThreadSanitizer: ([^\n(]*)')


def build_all(m):
    t = os.path.join(m.TARGET, 'tsan')
    m.build(['c27'], target=t, toolchain=('+nightly',), extra=('-Zbuild-std', '--target', TRIPLE), timeout=850, RUSTFLAGS='-Zsanitizer=thread')
    m.build(['c27'])
    return os.path.join(t, TRIPLE, 'debug', 'c27')


def run(m, prop, tier, replay):
    exe = build_all(m)
    d = json.load(open(replay)) if replay else {}
    seed = str(d.get('seed', os.environ.get('VERIF_SEED', '1')))
    tier = d.get('tier', tier)
    quick = tier == 'quick'
    path = os.path.join(m.ROOT, 'evidence', prop + '.json')
    light = path + '.tsan'
    ev = None
    if d.get('layer') != 'tsan':
        if m.run_monitor(prop, [os.path.join(m.TARGET, 'debug', 'c27')], tier, replay, timeout=600 if quick else 5 * 3600)[0]:
            return 1
        if replay:
            return 0
        ev = json.load(open(path))
    t0 = time.time()
    try:
        r = subprocess.run([exe], cwd=m.ROOT, capture_output=True, text=True, errors='replace', timeout=600 if quick else 5 * 3600,
                           env=m.env(VERIF_TIER=tier, VERIF_SEED=str(int(seed) + 1_000_003), VERIF_LIGHT='1', VERIF_EVIDENCE=light, TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_signal_unsafe=0'))
    except subprocess.TimeoutExpired:
        m.die('time limit under ThreadSanitizer')
    sub = json.load(open(light)) if os.path.exists(light) else {}
    if os.path.exists(light):
        os.remove(light)
    what = None
    hit = RACE.search(r.stderr)
    if hit:
        frames = [l.strip() for l in r.stderr[hit.start():].splitlines() if re.match(r'\s*#\d+ ', l)]
        mine = [f for f in frames if 'ublox' in f] or frames
        what = f'ThreadSanitizer: {hit.group(1).strip()} {"; ".join(mine[:3])[:500]}'
    elif r.returncode == 1:
        what = 'under ThreadSanitizer: ' + ' '.join(r.stdout.split('\n')[1:2])[:500]
    elif r.returncode < 0:
        what = f'the monitor died with signal {-r.returncode} under ThreadSanitizer: {r.stderr[-300:]}'
    elif r.returncode:
        m.die(f'the monitor ended with {r.returncode} under ThreadSanitizer: {r.stdout[-300:]} {r.stderr[-600:]}')
    if ev:
        cov, sc = ev['coverage'], sub.get('coverage', {})
        cov['evaluations'] += sc.get('evaluations', 0)
        cov['distinct_nontrivial'] += sc.get('distinct_nontrivial', 0)
        for s in sc.get('sections', []):
            cov['sections'].append({**s, 'section': s['section'] + ' (under ThreadSanitizer)'})
        for k, v in sc.get('observed_events', {}).items():
            cov['observed_events'][k + ' (under ThreadSanitizer)'] = v
        cov['rule'] += ' | the sections with threads again under ThreadSanitizer, on other cases, counted the same way'
        ev['violations'] += int(bool(what))
        json.dump(ev, open(path, 'w'), indent=1)
    if what:
        m.violation(prop, what, {'layer': 'tsan', 'seed': int(seed), 'tier': tier})
    print(f'{prop}: under ThreadSanitizer {sub.get("coverage", {}).get("evaluations", 0)} evaluations, no report, {time.time() - t0:.1f} s')
    return 0
