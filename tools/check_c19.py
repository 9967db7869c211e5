"""C19: random descriptions compiled through the crate's own macros (guarded module of the crate) and executed.

A description the macros refuse, or whose code does not compile, is a violation: every description is valid."""
import json, os, subprocess
import descgen, ubx
GROUPS = {'quick': 40, 'thorough': 26}
ROUNDS = {'quick': 1, 'thorough': 14}
INTERNAL = ('validate', 'match_packet', 'MAX_PAYLOAD_LEN', 'is_valid', 'from_unchecked', 'into_raw', 'MemWriter', 'UbxPacketCreator', 'UbxPacketMeta', 'SerializeUbxPacketFields')


def crate(main):
    return os.path.join(main.ROOT, 'dharness')


def target(main):
    return os.path.join(main.ROOT, 'target', 'c19')


def desc_seed(seed, rnd):
    return seed * 1000 + rnd


def generate(main, dseed, n):
    t = target(main)
    os.makedirs(t, exist_ok=True)
    gen = descgen.Gen(dseed)
    gs = [gen.group(k) for k in range(n)]
    text = descgen.source(gs)
    descgen.write(os.path.join(t, 'gen.rs'), text)
    descgen.write(os.path.join(t, 'model.json'), json.dumps(descgen.model(gs)))
    return text


def build(main, text):
    """None, or the first error that lies in generated text: (what it belongs to, message)."""
    t = target(main)
    main.fresh(t, ('ublox', 'ublox_derive'), crate(main))
    cmd = ['cargo', 'build', '--offline', '--locked', '--quiet', '--message-format=json']
    try:
        r = subprocess.run(cmd, cwd=crate(main), env=main.env(CARGO_TARGET_DIR=t, RUSTFLAGS='--cfg ublox_verif -Awarnings', UBLOX_VERIF_GEN=os.path.join(t, 'gen.rs')), capture_output=True, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        main.die('build timed out')
    if r.returncode == 0:
        return None
    errs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        m = m.get('message') or {}
        if m.get('level') == 'error' and m.get('spans'):
            sp = [s for s in m['spans'] if s['is_primary']] or m['spans']
            errs.append((sp[0]['file_name'], sp[0]['line_start'], m['message'], m.get('rendered') or ''))
    outside = [e for e in errs if os.path.basename(e[0]) != 'gen.rs']
    if outside or not errs:
        main.die('build failed: ' + '; '.join(f'{f}:{l}: {m}' for f, l, m, _ in outside[:4]) + r.stderr[-600:])
    kinds = [(descgen.where(text, l), m, full) for f, l, m, full in errs]
    for w, m, full in kinds:
        if w[0] == 'description':
            return w, m, full
    for w, m, full in kinds:
        if w[0] == 'observers' and not any(x in m for x in INTERNAL):
            return w, m, full
    main.die('build failed: ' + '; '.join(f'{w}: {m}' for w, m, _ in kinds[:4]))


def build_all(main):
    build(main, generate(main, desc_seed(int(os.environ.get('VERIF_SEED', '1')), 0), GROUPS['quick']))


def snippet(text, w):
    out, on = [], False
    for l in text.split('\n'):
        if l.startswith('//@ '):
            on = l[4:].split(' ') == w
        elif on:
            out.append(l)
    return '\n'.join(out[:80])


def run(main, prop, tier, replay):
    ev = ubx.Evidence(main, prop, tier)
    seed, rounds, n = ev.seed, range(ROUNDS[tier]), GROUPS[tier]
    if replay:
        d = json.load(open(replay))
        x = d.get('extra') or d
        n, rounds, seed = x['groups'], [x['round']], x['seed']
        tier = x['tier']
    sections, sets, rule, known = {}, {}, '', {}
    for rnd in rounds:
        text = generate(main, desc_seed(seed, rnd), n)
        extra = {'groups': n, 'round': rnd, 'seed': seed, 'tier': tier}
        bad = build(main, text)
        if bad:
            w, m, full = bad
            ev.violations = 1
            ev.evals += 1
            ev.write()
            main.violation(prop, f'a valid description ({" ".join(w[1:])}) is refused or yields code that does not compile: {m}', {**extra, 'compiler': full[:3000], 'description': snippet(text, w)})
        if replay and 'section' not in d:
            print('replay: all descriptions compile')
            return 0
        out = os.path.join(target(main), f'evidence-{rnd}.json')
        rc, o, e = main.run_monitor(prop, [os.path.join(target(main), 'debug', 'dh')], tier, replay, DESC_MODEL=os.path.join(target(main), 'model.json'), VERIF_SEED=str(seed), VERIF_EVIDENCE=out, VERIF_REPLAY_EXTRA=json.dumps(extra))
        if replay:
            return rc
        r = json.load(open(out))
        os.remove(out)
        c = r['coverage']
        ev.evals += c['evaluations']
        ev.violations += r['violations']
        # descriptions differ from round to round, so the distinct cases do too
        ev.seen.update((rnd, i) for i in range(c['distinct_nontrivial']))
        ev.samples += c['samples'][:20 if rnd == 0 else 1]
        ev.rule = c['rule']
        ev.assumptions = r['assumptions']
        for k, v in c['observed_events'].items():
            ev.count(k, v)
        for k, v in c['distinct_states'].items():
            sets[k] = max(sets.get(k, 0), v)
        if rc:
            ev.extra = {'distinct_states': sets}
            ev.write()
            return rc
    ev.samples = ev.samples[:40]
    ev.extra = {'distinct_states': sets, 'rounds of descriptions': len(list(rounds)), 'description seeds': [desc_seed(seed, r) for r in rounds]}
    ev.write()
    return 0
