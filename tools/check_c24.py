"""C24: contradictory descriptions, each compiled through the crate's own macros beside its valid twin.

The compiler is run over all of them; a contradictory description that produced an error has been rejected and is taken out,
and the compiler is run again until what is left compiles: contradictory descriptions left over were accepted (violation).
A valid twin that produces an error is a violation too."""
import concurrent.futures as cf, json, os, re, shlex, subprocess, time
import descbad, descgen, ubx
KNOWN = 'known_findings.json'


def target(main):
    return os.path.join(main.ROOT, 'target', 'c24')


def compiler(main):
    """Builds what the crate depends on and learns how cargo compiles the crate itself: (command, directory)."""
    t = target(main)
    main.fresh(t, ('ublox', 'ublox_derive'), os.path.join(main.ROOT, 'dharness'))
    gen = os.path.join(t, 'gen.rs')
    # a new text each time, so that cargo does compile the crate and shows the command
    descgen.write(gen, descbad.source(descbad.Bad(0), set()) + f'// {os.getpid()} {time.time_ns()}\n')
    cwd = os.path.join(main.ROOT, 'dharness')
    cmd = ['cargo', 'check', '--offline', '--locked', '-v', '-p', 'ublox', '--lib']
    try:
        r = subprocess.run(cmd, cwd=cwd, env=main.env(CARGO_TARGET_DIR=t, RUSTFLAGS='--cfg ublox_verif -Awarnings', UBLOX_VERIF_GEN=gen), capture_output=True, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        main.die('compiler timed out')
    run = [m.group(1) for m in re.finditer(r'Running `(.* --crate-name ublox .*)`$', r.stderr, re.M)]
    if r.returncode or not run:
        main.die('build failed: ' + r.stderr[-1500:])
    w = shlex.split(run[-1])
    while '=' in w[0] and not w[0].startswith('/'):
        w.pop(0)
    out, k = [], 0
    while k < len(w):
        if w[k] == '--out-dir' or (w[k] == '-C' and w[k + 1].startswith('incremental')):
            k += 1
        elif not w[k].startswith(('--error-format', '--json', '--diagnostic-width')):
            out.append(w[k])
        k += 1
    return out + ['--error-format=json'], cwd


def compile_once(main, rustc, slot, text):
    """(accepted?, [(side, id, message, code)])"""
    t = os.path.join(target(main), f'part{slot}')
    os.makedirs(t, exist_ok=True)
    gen = os.path.join(t, 'gen.rs')
    descgen.write(gen, text)
    try:
        r = subprocess.run(rustc[0] + ['--out-dir', t], cwd=rustc[1], env=main.env(UBLOX_VERIF_GEN=gen, CARGO_MANIFEST_DIR=rustc[1]), capture_output=True, text=True, errors='replace', timeout=700)
    except subprocess.TimeoutExpired:
        main.die('compiler timed out')
    lines = text.split('\n')
    owner, cur = [], ['prelude']
    for l in lines:
        if l.startswith('//@ '):
            cur = l[4:].split(' ')
        owner.append(cur)
    errs, outside = [], []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') != 'error' or not m.get('spans'):
            continue
        hit = None
        todo = sorted(m['spans'], key=lambda s: not s['is_primary'])
        while todo and hit is None:
            s = todo.pop(0)
            if os.path.basename(s['file_name']) == 'gen.rs':
                o = owner[min(s['line_start'], len(owner)) - 1]
                if o[0] in ('good', 'bad'):
                    hit = (o[0], int(o[1]), m['message'], (m.get('code') or {}).get('code'))
            if s.get('expansion'):
                todo.append({**s['expansion']['span'], 'is_primary': False})
        (errs if hit else outside).append(hit or f"{m['spans'][0]['file_name']}:{m['spans'][0]['line_start']}: {m['message']}")
    if r.returncode and not errs:
        main.die('build failed: ' + '; '.join(outside[:4]) + r.stderr[-800:])
    return r.returncode == 0, errs


def build_all(main):
    compiler(main)


def settle(main, rustc, slot, b, ids):
    """Compiles until what is left is accepted: (what was left, errors, compiler runs)."""
    cases = b.cases
    keep = {(s, i) for i in ids for s in ('good', 'bad')}
    log, runs = [], 0
    while True:
        ok, errs = compile_once(main, rustc, slot, descbad.source(b, keep))
        runs += 1
        for side, i, m, code in errs:
            log.append((side, i, m, code, (side, i) in keep))
            keep.discard((side, i))
            # twins of equal text share one compilation
            if side == 'good':
                keep -= {('good', c['id']) for c in cases if c['good'] == cases[i]['good']}
        if ok or any(e[0] == 'good' for e in errs):
            return keep, log, runs, ok


def run(main, prop, tier, replay):
    ev = ubx.Evidence(main, prop, tier)
    seed, rounds = ev.seed, 3 if tier == 'quick' else 60
    only = None
    if replay:
        d = json.load(open(replay))
        seed, rounds, only = d['seed'], d['rounds'], d['case']
    rustc = compiler(main)
    known = [f['signature'] for f in json.load(open(os.path.join(main.ROOT, KNOWN)))['findings'] if f['property'] == prop and f['status'] == 'known']
    step = 3
    kinds, stages, batches = {}, {}, 0
    found = []
    for part in range(0, rounds, step):
        b = descbad.Bad(seed * 100 + part)
        cases = b.all(min(step, rounds - part))
        if only is not None and only['part'] != part:
            continue
        ids = [c['id'] for c in cases if only is None or c['id'] == only['id']]
        size = 64
        shares = [ids[k::max(1, -(-len(ids) // size))] for k in range(max(1, -(-len(ids) // size)))]
        keep, refused = set(), False
        with cf.ThreadPoolExecutor(8) as ex:
            for left, log, runs, ok in ex.map(lambda a: settle(main, rustc, a[0], b, a[1]), enumerate(shares)):
                batches += runs
                refused |= not ok
                keep |= left
                for side, i, m, code, first in log:
                    if side == 'good':
                        found.append((part, i, 'valid description refused', m))
                    elif first:
                        ev.count('contradictory descriptions rejected')
                        st = code or 'macro'
                        stages[st] = stages.get(st, 0) + 1
                        kinds.setdefault(cases[i]['kind'], set()).add(i + part * 100000)
        if not refused:
            for i in sorted(i for s, i in keep if s == 'bad'):
                found.append((part, i, 'contradictory description accepted', cases[i]['kind']))
        ev.evals += len(ids)
        ev.count('valid twins accepted', len({cases[i]['good'] for s, i in keep if s == 'good'}))
        ev.seen.update(cases[i]['bad'] for i in ids)
        for c in cases[:: max(1, len(cases) // 8)]:
            if len(ev.samples) < 16:
                ev.samples.append({'contradiction': c['kind'], 'description': c['bad'][:600]})
        ev.rule = ('random valid descriptions (packets of all directions, enumerations, flag sets, dispatch) with one contradiction put in, compiled through the crate beside their unchanged twins until the rest compiles; '
                   'one evaluation = one contradiction judged; distinct = different contradictory texts')
        ev.assumptions = ['rejection by the macro or by the compiler on the generated code both count', 'default features plus std, serde, alloc']
        ev.extra = {'contradictions by kind': {k: len(v) for k, v in sorted(kinds.items())}, 'rejected by (macro = its own diagnostics, otherwise compiler error code)': dict(sorted(stages.items())), 'compiler runs': batches}
        new = [f for f in found if f'{f[2]}: {cases[f[1]]["kind"]}' not in known]
        if new:
            ev.violations = len(new)
            if not replay:
                ev.write()
            part, i, what, m = new[0]
            c = cases[i]
            main.violation(prop, f'{what}: {c["kind"]} ({m}); {len(new)} in this batch: ' + '; '.join(sorted({cases[f[1]]['kind'] for f in new}))[:600], {'seed': seed, 'rounds': rounds, 'case': {'part': part, 'id': i}, 'kind': c['kind'], 'description': c['bad'] if 'accepted' in what else c['good'], 'twin': c['good']})
        for k in sorted({f'{f[2]}: {cases[f[1]]["kind"]}' for f in found}):
            print(f'KNOWN-FINDING: property={prop} {k}')
        found = []
    if replay:
        print('replay: no violation')
        return 0
    if ev.counts.get('contradictory descriptions rejected', 0) < 300 or ev.counts.get('valid twins accepted', 0) < 150:
        main.die(f'inconclusive: {ev.counts}')
    ev.write()
    return 0
