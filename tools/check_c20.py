"""C20: the command-line tool against a simulated receiver on a pseudo-terminal.

Monitors: the byte stream the tool sends (an automaton of the steps it may take), the line settings it asks for
(recorded by a preloaded stand-in), and its report lines (compared with an independent decoding of what was sent to it)."""
import datetime, json, os, pty, random, re, select, shutil, struct, subprocess, sys, tempfile, termios, threading, time, tty
from concurrent.futures import ThreadPoolExecutor
from ubx import frame, Scanner, Evidence

LIMIT = 60.0
CSIZE, CS7, CS8, CSTOPB, PARENB, PARODD = 0x30, 0x20, 0x30, 0x40, 0x100, 0x200


class Bad(Exception):
    pass


class Harness(Exception):
    pass


class Tool:
    """The running tool, its terminal and its output lines."""

    def __init__(self, exe, shim, tmp, args):
        self.m, self.s = pty.openpty()
        tty.setraw(self.s)
        self.rec = os.path.join(tmp, 'tty')
        if os.path.exists(self.rec):
            os.unlink(self.rec)
        cmd = [exe, '--port', os.ttyname(self.s)] + args
        e = dict(os.environ, LD_PRELOAD=shim, TTYREC=self.rec, RUST_BACKTRACE='0')
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=tmp)
        self.held = b''
        self.lines, self.err, self.cv = [], [], threading.Condition()
        self.threads = [threading.Thread(target=self._read, args=(self.p.stdout, self.lines), daemon=True), threading.Thread(target=self._read, args=(self.p.stderr, self.err), daemon=True)]
        for t in self.threads:
            t.start()

    def _read(self, f, to):
        for l in f:
            with self.cv:
                to.append(l.decode('utf8', 'replace').rstrip('\n'))
                self.cv.notify_all()

    def recv(self, n, limit=LIMIT, keep=False):
        """Bytes the tool sent: n of them, or what came within the limit (kept for the next call, if so asked)."""
        b, end, self.held = self.held[:n], time.time() + limit, self.held[n:]
        while len(b) < n and time.time() < end:
            r, _, _ = select.select([self.m], [], [], max(0, min(0.05, end - time.time())))
            if r:
                b += os.read(self.m, n - len(b))
            elif self.p.poll() is not None:
                r, _, _ = select.select([self.m], [], [], 0)
                if not r:
                    break
        if keep:
            self.held = b + self.held
        return b

    def send(self, b, r, slow=False):
        i = 0
        while i < len(b):
            k = {0: 1, 1: r.randint(1, 12), 2: r.randint(1, 200)}.get(r.randint(0, 3), len(b))
            if len(b) - i > 400:
                k = max(k, 64)
            i += self.push(b[i:i + k])
            if r.random() < (0.3 if slow else 0.05):
                time.sleep(r.choice([0.002, 0.015, 0.03]) if slow else 0.013)

    def push(self, b):
        end = time.time() + LIMIT
        while True:
            _, w, _ = select.select([], [self.m], [], 1)
            if w:
                return os.write(self.m, b)
            if time.time() > end:
                raise Bad('the tool stopped reading')
            if self.p.poll() is not None:
                raise Bad(f'the tool ended with {self.p.returncode}: {self.tail()}')

    def tail(self):
        time.sleep(0.2)
        return ' / '.join(self.err[-4:])[-600:]

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for t in self.threads:
            t.join(5)
        os.close(self.m)
        os.close(self.s)


def expected_uart(o):
    mode = {7: 2, 8: 3}[o['data']] << 6 | {'odd': 1, 'even': 0, None: 4}[o['parity']] << 9 | {1: 0, 2: 2}[o['stop']] << 12
    return struct.pack('<BBHIIHHHH', {'usb': 3, 'uart1': 1, 'uart2': 2}[o['select']], 0, 0, mode, o['baud'], o['in'], o['out'], 0, 0)


def canon_uart(pl):
    """Bit 9 does not matter when parity is off."""
    (mode,) = struct.unpack_from('<I', pl, 4)
    if mode >> 9 & 7 == 5:
        mode &= ~(1 << 9)
    return pl[:4] + struct.pack('<I', mode) + pl[8:]


def options(r, ev):
    """Random command line: arguments, expected line settings, expected first message (None: no configuration), must fail."""
    a, line = [], {'baud': 9600, 'stop': 1, 'data': 8, 'parity': None}

    def serial(a, d):
        if r.random() < 0.7:
            d['baud'] = r.choice([9600, 38400, 115200, 230400, 460800, 921600, 4800, r.randint(1200, 4000000)])
            a += [r.choice(['--baud', '-s']) if a is not sub else '--baud', str(d['baud'])]
        if r.random() < 0.5:
            d['stop'] = r.choice([1, 2])
            a += ['--stop-bits', str(d['stop'])]
        if r.random() < 0.5:
            d['data'] = r.choice([7, 8])
            a += ['--data-bits', str(d['data'])]
        if r.random() < 0.6:
            d['parity'] = r.choice(['even', 'odd'])
            a += ['--parity', d['parity']]
    sub = []
    serial(a, line)
    if r.random() < 0.5:
        return a, line, None, False
    sub.append('configure')
    o = {'baud': 9600, 'stop': 1, 'data': 8, 'parity': None, 'select': 'usb'}
    o['select'] = r.choice(['usb', 'uart1', 'uart2', 'usb', 'uart1', 'uart2', 'i2c'])
    sub += ['--select', o['select']]
    serial(sub, o)
    # UBX input is on by default
    inp, out = 1, 0
    for f, b in [('--in-ublox', 1), ('--in-nmea', 2), ('--in-rtcm', 4), ('--in-rtcm3', 32)]:
        if r.random() < 0.35:
            sub.append(f)
            inp |= b
    for f, b in [('--out-ublox', 1), ('--out-nmea', 2), ('--out-rtcm3', 32)]:
        if r.random() < 0.4:
            sub.append(f)
            out |= b
    o['in'], o['out'] = inp, out or 1
    if inp & 4 and inp & 32:
        return a + sub, line, None, True
    return a + sub, line, (o if o['select'] != 'i2c' else None), False


# Listed deviations (known_findings.json). Only a message or setting that is exactly what the listed defect produces counts as one.
K_LINE, K_PANIC = 'line parity odd/even exchanged', 'configure panics: no argument with id baud'


def noise(r):
    k = r.randint(0, 5)
    if k == 0:
        return bytes(r.randint(0, 255) for _ in range(r.randint(1, 40)))
    if k == 1:
        return b'$GNGGA,092725.00,4717.11399,N,00833.91590,E,1,08,1.01,499.6,M,48.0,M,,*5B\r\n'
    if k == 2:
        return bytes(r.choice([0xb5, 0x62, 0]) for _ in range(r.randint(1, 10)))
    if k == 3:
        f = frame(r.choice([1, 5, 6, 10]), r.randint(0, 8), bytes(r.randint(0, 255) for _ in range(r.randint(0, 30))))
        return f[:r.randint(1, len(f) - 1)]
    if k == 4:
        f = bytearray(frame(r.choice([1, 5]), r.choice([0, 1, 7]), bytes(r.randint(0, 255) for _ in range(r.choice([2, 92])))))
        f[r.randint(2, len(f) - 1)] ^= 1 << r.randint(0, 7)
        return bytes(f)
    return b'\xb5\x62' + bytes((r.randint(0, 20), r.randint(0, 20))) + struct.pack('<H', r.choice([9000, 65535, 8177])) + b'\0\1'


def distraction(r, cls, mid):
    """Traffic that is not the acknowledgement of (cls, mid)."""
    ack = frame(5, 1, bytes((cls, mid)))
    k = r.randint(0, 9)
    if k == 0:
        return frame(5, 1, bytes((cls, r.choice([x for x in range(256) if x != mid])))), 'acknowledgement of another id'
    if k == 1:
        return frame(5, 1, bytes((r.choice([x for x in range(256) if x != cls]), mid))), 'acknowledgement of another class'
    if k == 2 and cls != mid:
        return frame(5, 1, bytes((mid, cls))), 'acknowledgement with class and id exchanged'
    if k == 3:
        return frame(5, 0, bytes((cls, mid))), 'negative acknowledgement of the message'
    if k == 4:
        b = bytearray(ack)
        b[r.choice([2, 3, 6, 7, 8, 9])] ^= 1 << r.randint(0, 7)
        return bytes(b), 'damaged acknowledgement'
    if k == 5:
        return frame(0x21, 7, b'log' + ack), 'acknowledgement inside another message'
    if k == 6:
        return frame(5, 1, bytes((cls, mid, 0)) if r.random() < 0.5 else bytes((cls,))), 'acknowledgement of wrong length'
    if k == 7:
        return frame(r.choice([1, 2, 4, 6, 10]), r.choice([0x60, 0x61]), bytes((cls, mid))), 'another message with the same payload'
    if k == 8:
        return frame(6, 1, bytes((1, 7, 0, 1, 1, 1, 0, 0))) if r.random() < 0.5 else pvt(r)[0], 'other message'
    return noise(r), 'noise'


def pvt(r, fix=None):
    y = r.choice([2000, 2023, 2024, 2100, 1980, r.randint(1980, 2199)])
    mo = r.randint(1, 12)
    dim = (datetime.date(y + (mo == 12), mo % 12 + 1, 1) - datetime.timedelta(days=1)).day
    d = r.choice([1, dim, r.randint(1, dim)])
    h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])
    ns = r.choice([0, 1, -1, 999999999, -999999999, r.randint(-500000, 500000), r.randint(-999999999, 999999999)])
    fix = r.choice([0, 1, 2, 3, 3, 3, 4, 4, 5]) if fix is None else fix
    lon = r.choice([0, 1, -1, 1800000000, -1800000000, r.randint(-1800000000, 1800000000)])
    lat = r.choice([0, 1, -1, 900000000, -900000000, r.randint(-900000000, 900000000)])
    msl = r.choice([0, 1, -1, -430000, 8848000, r.randint(-10000000, 90000000), 2**31 - 1, -2**31])
    el = r.randint(-10000000, 90000000)
    spd = r.choice([0, 1, 4, 5, 6, 1234, r.randint(0, 600000), 2**32 - 1, 2**31])
    hd = r.choice([0, 1, 35999999, r.randint(0, 35999999), -r.randint(1, 17999999)])
    rb = lambda n: bytes(r.randint(0, 255) for _ in range(n))
    pl = rb(4) + struct.pack('<HBBBBB', y, mo, d, h, mi, s) + rb(1) + rb(4) + struct.pack('<iB', ns, fix) + rb(3) + struct.pack('<iiii', lon, lat, el, msl) + rb(20) + struct.pack('<Ii', spd, hd) + rb(24)
    assert len(pl) == 92
    return frame(1, 7, pl), pl


def reports(ev):
    """What a packet must make the tool report."""
    out = []
    if ev[0] != 'frame':
        return out
    _, c, i, pl = ev
    if (c, i) == (1, 7) and len(pl) == 92:
        fix = pl[20]
        lon, lat, _, msl = struct.unpack_from('<iiii', pl, 24)
        spd, hd = struct.unpack_from('<Ii', pl, 60)
        if fix in (3, 4):
            out.append(('position', lat * 1e-7, lon * 1e-7, msl * 1e-3))
            out.append(('velocity', spd * 1e-3, hd * 1e-5))
        if fix in (3, 4, 5):
            y, mo, d, h, mi, s = struct.unpack_from('<HBBBBB', pl, 4)
            (ns,) = struct.unpack_from('<i', pl, 16)
            t = datetime.datetime(y, mo, d, h, mi, s)
            if ns < 0:
                t -= datetime.timedelta(seconds=1)
                ns += 10**9
            out.append(('time', t.strftime('%Y-%m-%dT%H:%M:%S') if t.year >= 1000 else None, ns))
    elif (c, i) == (10, 4) and len(pl) >= 40 and (len(pl) - 40) % 30 == 0 and len(pl) <= 1240:
        z = lambda b: b.split(b'\0')[0].decode()
        out.append(('version', z(pl[:30]), z(pl[30:40]), tuple(z(pl[k:k + 30]) for k in range(40, len(pl), 30))))
    return out


def monver(r, sw=None):
    t = lambda n: bytes(r.choice(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-=') for _ in range(r.choice([0, 1, n, r.randint(0, n)]))).ljust(n, b'q')[:r.randint(1, n)].ljust(n, b'\0')
    z = lambda n: t(n - 1) + b'\0'
    pl = (z(30) if sw is None else sw.encode().ljust(30, b'\0')) + z(10)
    for _ in range(r.choice([0, 1, 2, 7, 10, 40 if r.random() < 0.3 else 3])):
        pl += z(30)
    return frame(10, 4, pl)


NUM = r'(-?[\d.]+)'


def parse_line(l):
    m = re.match(rf'\s*Latitude:\s*{NUM}\D*?Longitude:\s*{NUM}\D*?Altitude:\s*{NUM}\s*m', l)
    if m:
        return ('position',) + tuple(float(x) for x in m.groups())
    m = re.match(rf'\s*Speed:\s*{NUM}\s*m/s.*?Heading:\s*{NUM}', l)
    if m:
        return ('velocity',) + tuple(float(x) for x in m.groups())
    m = re.match(r'\s*Time:\s*(\d+-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d+))?', l)
    if m:
        return ('time', m.group(1), int((m.group(2) or '').ljust(9, '0')))
    m = re.match(r'\s*SW version: (\S*) HW version: (\S*?);? Extensions: \[(.*)\]', l)
    if m:
        return ('version', m.group(1), m.group(2), tuple(re.findall(r'"([^"]*)"', m.group(3))))
    return None


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'position':
        return abs(a[1] - b[1]) < 0.6e-5 and abs(a[2] - b[2]) < 0.6e-5 and abs(a[3] - b[3]) < 0.6e-2
    if a[0] == 'velocity':
        return abs(a[1] - b[1]) < 0.6e-2 and abs(a[2] - b[2]) < 0.6e-2
    return a == b


def session(exe, shim, tmp, seed, idx, ev, lock, npackets, known):
    r = random.Random(f'{seed}/{idx}')
    args, line, conf, must_fail = options(r, ev)
    uart = expected_uart(conf) if conf else None

    def note(k, n=1):
        with lock:
            ev.count(k, n)
    tool = Tool(exe, shim, tmp, args)
    try:
        if must_fail:
            if K_PANIC in known and listed_panic(tool):
                note('known: ' + K_PANIC)
                return args
            b = tool.recv(1)
            if b:
                raise Bad(f'contradictory options {args} still send {b.hex()}')
            try:
                rc = tool.p.wait(LIMIT)
            except subprocess.TimeoutExpired:
                raise Bad(f'contradictory options {args} are neither refused nor acted on')
            if rc == 0 or rc == 101:
                raise Bad(f'contradictory options {args}: exit status {rc}: {tool.tail()}')
            note('contradictory options refused')
            return args
        if 'configure' in args and K_PANIC in known and listed_panic(tool):
            note('known: ' + K_PANIC)
            check_line(tool, line, args, known, note)
            note('line settings checked')
            return args
        scan = Scanner()
        steps = ([('the port configuration', 6, 0, uart)] if uart is not None else []) + [('the message rate', 6, 1, bytes((1, 7, 0, 1, 1, 1, 0, 0)))]
        for what, cls, mid, pl in steps:
            want = frame(cls, mid, pl)
            got = tool.recv(len(want))
            g = got
            if cls == 6 and mid == 0 and len(g) == len(want) and g == frame(6, 0, g[6:-2]):
                g = frame(6, 0, canon_uart(g[6:-2]))
            if g != want:
                raise Bad(f'{args}: expected {what} {want.hex()}, got {got.hex() or "nothing"} {tool.tail() if not got else ""}')
            note('frames of the tool checked')
            if what is steps[0][0]:
                check_line(tool, line, args, known, note)
                note('line settings checked')
            sent = []
            ack = frame(5, 1, bytes((cls, mid)))
            for _ in range(r.randint(1, 6)):
                d, kind = distraction(r, cls, mid)
                # nothing in it may complete the acknowledgement
                trial = Scanner()
                trial.s, trial.p = bytearray(scan.s), scan.p
                e = trial.feed(d)
                if any(x == ('frame', 5, 1, bytes((cls, mid))) for x in e):
                    continue
                e = scan.feed(d)
                tool.send(d, r, True)
                sent.append(kind)
                note('distractions sent')
                note('distraction: ' + kind)
            need = scan.pending()
            while need:
                e = scan.feed(bytes(need))
                tool.send(bytes(need), r)
                if any(x == ('frame', 5, 1, bytes((cls, mid))) for x in e):
                    raise Harness('filler completed an acknowledgement')
                need = scan.pending()
            b = tool.recv(1, r.choice([0.05, 0.1, 0.2]))
            if b:
                raise Bad(f'{args}: goes on before {what} was acknowledged, after {sent}; sent {(b + tool.recv(200, 0.3)).hex()}; stream so far {bytes(scan.s).hex()[-600:]}')
            if tool.p.poll() is not None:
                raise Bad(f'{args}: ended with {tool.p.returncode} while waiting for the acknowledgement of {what}, after {sent}: {tool.tail()}')
            note('waits without the acknowledgement')
            e = scan.feed(ack)
            if not e or e[-1] != ('frame', 5, 1, bytes((cls, mid))):
                raise Harness('acknowledgement would not be delivered')
            tool.send(ack, r, True)
        want = frame(10, 4)
        got = tool.recv(len(want))
        if got != want:
            raise Bad(f'{args}: expected the version request {want.hex()} after the acknowledgements, got {got.hex() or "nothing"} {tool.tail() if not got else ""}')
        note('frames of the tool checked')
        expect = []
        mark = f'end-{seed}-{idx}'
        for k in range(npackets + 1):
            c = r.randint(0, 9)
            b = monver(r, mark) if k == npackets else pvt(r)[0] if c < 5 else monver(r) if c < 6 else frame(5, r.randint(0, 1), bytes((r.randint(0, 255), r.randint(0, 255)))) if c < 7 else noise(r)
            if k == npackets:
                need = scan.pending()
                while need:
                    for x in scan.feed(bytes(need)):
                        expect += reports(x)
                    tool.send(bytes(need), r)
                    need = scan.pending()
            for x in scan.feed(b):
                expect += reports(x)
            tool.send(b, r, r.random() < 0.3)
        if not expect or expect[-1][1] != mark:
            raise Harness('end marker would not be delivered')
        end = time.time() + LIMIT
        got, i = [], 0
        while time.time() < end:
            with tool.cv:
                if i >= len(tool.lines):
                    tool.cv.wait(0.2)
                new = tool.lines[i:]
                i = len(tool.lines)
            got += [x for x in map(parse_line, new) if x]
            if got and got[-1][:2] == ('version', mark):
                break
            if tool.p.poll() is not None and i >= len(tool.lines):
                time.sleep(0.3)
                raise Bad(f'the tool ended with {tool.p.returncode} while receiving: {tool.tail()}; reports so far {got[-2:]}')
        for k in range(max(len(got), len(expect))):
            g, w = got[k] if k < len(got) else None, expect[k] if k < len(expect) else None
            if g is None or w is None or not same(g, w):
                raise Bad(f'report {k}: {g}, expected {w}')
            note(f'{w[0]} reports compared')
        b = tool.recv(1, 0.02)
        if b:
            raise Bad(f'unexpected bytes from the tool: {(b + tool.recv(200, 0.2)).hex()}')
        with lock:
            ev.distinct((args, [x[:3] for x in expect]))
            if len(ev.samples) < 6:
                ev.samples.append({'arguments': args, 'reports': [list(map(str, x)) for x in expect[:4]]})
        return args
    finally:
        tool.close()


def listed_panic(tool):
    """The tool ends before sending anything, because it asks its own argument table for an unknown name."""
    if tool.recv(1, LIMIT, True):
        return False
    try:
        rc = tool.p.wait(0.5)
    except subprocess.TimeoutExpired:
        return False
    return rc == 101 and 'Mismatch between definition and access of `baud`' in tool.tail()


def check_line(tool, line, args, known, note):
    end = time.time() + 5
    while not os.path.exists(tool.rec) and time.time() < end:
        time.sleep(0.02)
    if not os.path.exists(tool.rec):
        raise Harness('no line settings recorded')
    c, i, o = map(int, open(tool.rec).read().split('\n')[-2].split())
    want = {7: CS7, 8: CS8}[line['data']] | {1: 0, 2: CSTOPB}[line['stop']] | {None: 0, 'even': PARENB, 'odd': PARENB | PARODD}[line['parity']]
    mask = CSIZE | CSTOPB | PARENB | (PARODD if line['parity'] else 0)
    if line['parity'] and K_LINE in known and c & mask == (want ^ PARODD) & mask and i == o == line['baud']:
        note('known: ' + K_LINE)
    elif c & mask != want & mask or i != line['baud'] or o != line['baud']:
        raise Bad(f'{args}: opens the port with control flags {c:#o}, speeds {i}/{o}; asked for {line}')


def build_all(m):
    target = os.path.join(m.TARGET, 'cli')
    cwd = os.path.join(m.REPO, 'examples')
    m.fresh(target, ('ublox-cli', 'ublox', 'ublox_derive'), cwd)
    try:
        p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--quiet', '-p', 'ublox-cli'], cwd=cwd, env=m.env(CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_DEBUG='0'), capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        m.die('build timed out')
    if p.returncode:
        print(p.stderr[-5000:], file=sys.stderr)
        m.die('build failed')
    shim = os.path.join(target, 'ttyrec.so')
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', shim, os.path.join(m.ROOT, 'tools', 'ttyrec.c'), '-ldl'], capture_output=True, text=True)
    if p.returncode:
        m.die('stand-in does not build: ' + p.stderr[-500:])
    exe = os.path.join(target, 'debug', 'ublox-cli')
    return exe, shim


def run(m, prop, tier, replay):
    exe, shim = build_all(m)
    ev = Evidence(m, prop, tier)
    ev.rule = 'one session per case: random options, random distractions before each acknowledgement, then a random stream of packets and noise; distinct: options plus expected reports'
    ev.assumptions = ['a step taken without its acknowledgement shows within 50-200 ms of the distractions', 'dates are valid calendar dates without leap seconds', 'pseudo-terminal instead of a UART: line settings are recorded, not applied']
    known = {f['signature']: f['what'] for f in json.load(open(os.path.join(m.ROOT, 'known_findings.json')))['findings'] if f['property'] == prop and f['status'] == 'known'}
    n, npk = (300, 40) if tier == 'quick' else (3000, 120)
    seed, first = ev.seed, 0
    if replay:
        d = json.load(open(replay))
        seed, first, n, npk = d['seed'], d['session'], 1, d['packets']
    lock = threading.Lock()
    root = tempfile.mkdtemp(prefix='c20-')
    bad, harness = [], []

    def one(k):
        if bad or harness:
            return
        tmp = os.path.join(root, str(k))
        os.mkdir(tmp)
        try:
            session(exe, shim, tmp, seed, k, ev, lock, npk, known)
        except Bad as e:
            with lock:
                bad.append((k, str(e)))
        except Exception as e:
            with lock:
                harness.append((k, repr(e)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            with lock:
                ev.evals += 1
    try:
        with ThreadPoolExecutor(12) as ex:
            list(ex.map(one, range(first, first + n)))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ev.violations = len(bad)
    ev.write()
    for k, what in known.items():
        c = ev.counts.get('known: ' + k, 0)
        if c:
            print(f'KNOWN-FINDING: property={prop} {what} [observed {c} times]')
    if bad:
        k, what = min(bad)
        m.violation(prop, f'session {k}: {what}', {'seed': seed, 'session': k, 'packets': npk, 'tier': tier})
    if harness:
        m.die(f'harness error in session {harness[0]}')
    if not replay:
        for k, least in [('distractions sent', 100), ('waits without the acknowledgement', 40), ('line settings checked', 30), ('position reports compared', 300), ('velocity reports compared', 300), ('time reports compared', 300), ('version reports compared', 100)]:
            if ev.counts.get(k, 0) < least:
                m.die(f'inconclusive: {ev.counts.get(k, 0)} of {k}')
    return 0
