"""Independent UBX framing in Python, and evidence writing for checks driven from Python."""
import hashlib, json, os, time
MAX = 8176


def cksum(b):
    a = c = 0
    for x in b:
        a = (a + x) & 255
        c = (c + a) & 255
    return bytes((a, c))


def frame(cls, mid, pl=b''):
    b = bytes((cls, mid, len(pl) & 255, len(pl) >> 8)) + pl
    return b'\xb5\x62' + b + cksum(b)


class Scanner:
    """Left-to-right scan; events: ('frame', class, id, payload) or ('bad',)."""

    def __init__(self):
        self.s = bytearray()
        self.p = 0

    def pending(self):
        """Bytes still needed to resolve the candidate at the position (0: none open)."""
        s, p = self.s, self.p
        while True:
            i = s.find(0xb5, p)
            if i < 0:
                self.p = len(s)
                return 0
            p = self.p = i
            n = len(s) - p
            if n < 2:
                return 1
            if s[p + 1] != 0x62:
                p = self.p = p + 1
                continue
            if n < 6:
                return 6 - n
            l = s[p + 4] | s[p + 5] << 8
            if l > MAX:
                p = self.p = p + 2
                continue
            return max(0, l + 8 - n)

    def feed(self, b):
        self.s += b
        ev = []
        while True:
            need = self.pending()
            s, p = self.s, self.p
            if p >= len(s) or need:
                return ev
            l = s[p + 4] | s[p + 5] << 8
            if cksum(s[p + 2:p + 6 + l]) == bytes(s[p + 6 + l:p + 8 + l]):
                ev.append(('frame', s[p + 2], s[p + 3], bytes(s[p + 6:p + 6 + l])))
                self.p = p + l + 8
            else:
                ev.append(('bad',))
                self.p = p + 2


class Evidence:
    def __init__(self, main, prop, tier, level='exploration'):
        self.path = os.path.join(main.ROOT, 'evidence', prop + '.json')
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.evals, self.seen, self.samples, self.counts, self.rule, self.assumptions, self.extra = 0, set(), [], {}, '', [], {}
        self.violations = 0

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def distinct(self, x):
        self.seen.add(hashlib.sha256(repr(x).encode()).hexdigest()[:16])

    def write(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with open(self.path, 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
                       'coverage': {'evaluations': self.evals, 'distinct_nontrivial': len(self.seen), 'rule': self.rule, 'samples': self.samples[:20], 'observed_events': self.counts, **self.extra},
                       'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': self.violations}, f, indent=1)
        print(f'{self.prop}: {self.evals} evaluations, {len(self.seen)} distinct non-trivial, {self.violations} violations, {time.time() - self.t0:.1f} s')
