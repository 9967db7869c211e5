"""Descriptions that contradict themselves, each beside the same description without the contradiction (C24)."""
import copy, re
import descgen
from descgen import render_packet, render_enum, render_flags

BASE_SEED = 7


class Bad:
    def __init__(self, seed):
        self.g = descgen.Gen(seed)
        self.r = self.g.r
        self.base = {'enums': [self.g.enum(f'E{i}') for i in range(8)], 'flags': [self.g.flags(f'F{i}') for i in range(4)]}
        self.cases = []
        self.n = 0

    # ---- valid material
    def pk(self, want=None, modes=('recv', 'both', 'send', 'dynamic'), tries=400):
        for _ in range(tries):
            p = self.g.packet('P', self.base, mode=self.r.choice(modes))
            if want is None or want(p):
                return p
        raise RuntimeError('no such packet')

    def en(self, want=None):
        while True:
            e = self.g.enum('En')
            if len(e['variants']) > 60:
                continue
            if want is None or want(e):
                return e

    def fl(self, want=None):
        while True:
            e = self.g.flags('Fl')
            if want is None or want(e):
                return e

    def add(self, kind, good, bad):
        if good == bad:
            return
        self.cases.append({'id': len(self.cases), 'kind': kind, 'good': good, 'bad': bad})

    def both(self, kind, p, q, render=render_packet):
        self.add(kind, render(p), render(q))

    # ---- packets: attributes of the struct
    def set_attr(self, p, key, val):
        return [(k, val if k == key else v) for k, v in p['attrs']]

    def insert(self, l, x):
        l = list(l)
        l.insert(self.r.randrange(len(l) + 1), x)
        return l

    def packet_attrs(self):
        r = self.r
        lenkey = lambda p: 'fixed_payload_len' if p['fixed'] else 'max_payload_len'

        def m(kind, change, want=None, modes=('recv', 'both', 'send', 'dynamic')):
            p = self.pk(want, modes)
            q = copy.deepcopy(p)
            change(q)
            self.both(kind, p, q)

        fixed = lambda p: p['fixed']
        var = lambda p: not p['fixed']
        big = lambda p: p['fixed'] and p['size'] > 0

        for d in (1, -1, 2, -2, 255, 256, r.randrange(3, 60)):
            def ch(q, d=d):
                q['attrs'] = self.set_attr(q, 'fixed_payload_len', str(max(q['size'] + d, 0)))
            m('declared length differs from the sum of the fields', ch, lambda p, d=d: p['fixed'] and p['size'] + d >= 0)

        def ch(q):
            q['attrs'] = self.set_attr(q, 'fixed_payload_len', '0')
        m('declared length zero, fields not', ch, big)

        def drop(q):
            q['fields'].pop(r.randrange(len(q['fields'])))
        m('declared length, one field missing', drop, lambda p: p['fixed'] and p['fields'] and not p['impls'])

        def twice(q):
            f = copy.deepcopy(q['fields'][-1])
            f['name'] = 'again9'
            f['opts'] = [o for o in f['opts'] if o[0] != 'alias']
            q['fields'].append(f)
        m('declared length, one field too many', twice, lambda p: p['fixed'] and p['fields'])

        def ch(q):
            q['attrs'] = [('max_payload_len' if k == 'fixed_payload_len' else k, v) for k, v in q['attrs']]
        m('maximum length declared for a fixed-size packet', ch, fixed)

        def ch(q):
            q['attrs'] = [('fixed_payload_len' if k == 'max_payload_len' else k, str(q['size']) if k == 'max_payload_len' else v) for k, v in q['attrs']]
        m('fixed length declared for a variable packet', ch, var)
        for key in ('class', 'id', 'len'):
            def ch(q, key=key):
                k = lenkey(q) if key == 'len' else key
                q['attrs'] = [a for a in q['attrs'] if a[0] != k]
            m(f'no {key}', ch)
            for same in (True, False):
                def ch(q, key=key, same=same):
                    k = lenkey(q) if key == 'len' else key
                    v = dict(q['attrs'])[k]
                    q['attrs'] = self.insert(q['attrs'], (k, v if same else str(r.randrange(256))))
                m(f'{key} given twice' + (' (same value)' if same else ''), ch, None if same else big)

        def ch(q):
            q['attrs'] = self.insert(q['attrs'], ('max_payload_len' if q['fixed'] else 'fixed_payload_len', str(q['size'])))
        m('fixed and maximum length both given', ch)
        m('fixed and maximum length both given', ch, var)
        dflt = lambda p: p['default']

        def ch(q):
            q['attrs'] = self.insert(q['attrs'], ('flags', '"default_for_builder"'))
        m('flags given twice', ch, dflt)
        for v in ('256', '0x100', '300', '65536', '70000', '99999999999', '-1', '1.0', '"1"', "'a'", 'true', 'b"x"'):
            for key in ('class', 'id'):
                def ch(q, key=key, v=v):
                    q['attrs'] = self.set_attr(q, key, v)
                m(f'{key} is not a number below 256', ch)
        for v in ('65536', '0x1_0000', '100000', '-1', '8.0', '"8"', 'true'):
            def ch(q, v=v):
                q['attrs'] = self.set_attr(q, lenkey(q), v)
            m('length is not a number below 65536', ch)
        for k, v in (('len', '4'), ('klass', '1'), ('fixed_len', '4'), ('payload_len', '4'), ('Class', '1'), ('doc', '"x"'), ('default_for_builder', 'true'), ('min_payload_len', '0')):
            def ch(q, k=k, v=v):
                q['attrs'] = self.insert(q['attrs'], (k, v))
            m('unknown attribute', ch)
        for v in ('"default"', '"default_for_builders"', '"default_for_builder, other"', '"default_for_builder other"', '5', '"x = 1"', 'true'):
            def ch(q, v=v):
                q['attrs'] = self.insert([a for a in q['attrs'] if a[0] != 'flags'], ('flags', v))
            m('unknown flag', ch, modes=('both', 'send'))
        for extra in ('default_for_builder', '"text"', '7', 'flags("default_for_builder")', 'class(5)'):
            p = self.pk()
            t = render_packet(p)
            self.add('something else among the attributes', t, re.sub(r'#\[ubx\((?=class|id|fixed|max|flags)', lambda mm: f'#[ubx({extra}, ', t, 1))
        for rep in ('', '#[ubx]\n', '#[ubx = "x"]\n', '#[ubx()]\n', '#[ubx(,)]\n', '#[ubx(class 1)]\n'):
            p = self.pk()
            t = render_packet(p)
            head = re.compile(r'^#\[ubx\((?=class|id|fixed|max|flags).*\]\n', re.M)
            self.add('no usable description attribute', t, head.sub(rep, t, 1))
        for _ in range(4):
            p = self.pk()
            q = copy.deepcopy(p)
            t = render_packet(p)
            a = [(k, str(r.randrange(256)) if k in ('class', 'id') else v) for k, v in p['attrs']]
            line = f"#[ubx({', '.join(f'{k} = {v}' for k, v in a)})]\n"
            head = re.compile(r'^(#\[ubx\((?=class|id|fixed|max|flags).*\]\n)', re.M)
            self.add('two description attributes', t, head.sub(lambda mm: (line + mm.group(1)) if r.random() < 0.5 else (mm.group(1) + line), t, 1))
        for item in ('struct P(u8, u16);', 'struct P;', 'enum P { A = 1 }', 'union P { a: u8, b: u16 }', 'fn p() {}', 'type P = u8;', 'mod p {}'):
            for mac in ('ubx_packet_recv', 'ubx_packet_recv_send', 'ubx_packet_send'):
                self.add('not a struct with named fields', f'#[{mac}]\n#[ubx(class = 1, id = 2, fixed_payload_len = 3)]\nstruct P {{ a: u8, b: u16 }}\n', f'#[{mac}]\n#[ubx(class = 1, id = 2, fixed_payload_len = 3)]\n{item}\n')
        for _ in range(6):
            p = self.pk(lambda p: not p['fixed'] and p['size'] > 0)
            q = copy.deepcopy(p)
            q['attrs'] = self.set_attr(q, 'max_payload_len', str(r.choice([0, q['size'] - 1, r.randrange(q['size'])])))
            self.both('maximum length below the fixed part', p, q)

    # ---- packets: fields
    def packet_fields(self):
        r = self.r

        def m(kind, change, want=None, modes=('recv', 'both', 'send', 'dynamic')):
            p = self.pk(want, modes)
            q = copy.deepcopy(p)
            change(q)
            self.both(kind, p, q)

        plain = lambda f: f['conv']['k'] == 'plain' and not any(o[0] != 'alias' for o in f['opts'])
        has_plain = lambda p: any(plain(f) and f['size'] for f in p['fields'][1:]) and not p['impls']
        for ty, n in (('u64', 8), ('i64', 8), ('bool', 1), ('usize', 8), ('char', 4), ('u128', 16), ('std::string::String', 8), ('(u8, u8)', 2), ('Option<u8>', 1), ('[u16; 2]', 4), ('[i8; 4]', 4), ('[[u8; 2]; 2]', 4), ('[u8; 2 + 2]', 4), ('[u8; N]', 4), ('E0', 1), ('core::primitive::u8', 1), ('*const u8', 8), ('[u8]', 0), ('()', 0), ('U8', 1), ('[u8; 4.0]', 4), ('[bool; 2]', 2)):
            def ch(q, ty=ty, n=n):
                f = r.choice([f for f in q['fields'] if plain(f) and f['size']])
                if q['fixed'] and n:
                    q['attrs'] = self.set_attr(q, 'fixed_payload_len', str(q['size'] - f['size'] + n))
                f['ty'] = ty
            m('type of a field not supported', ch, has_plain)
            m('type of a field not supported', ch, lambda p: has_plain(p) and p['fixed'])
        for ty in ('[u8; 0]', '&[u8]', "&'static [u8]"):
            for mode in ('recv', 'both', 'send', 'dynamic', 'recv'):
                def ch(q, ty=ty):
                    f = {'name': 'hole9', 'ty': ty, 'opts': r.choice([[], [], [('alias', 'hole8')], [('map_type', 'It1'), ('from', 'It1::new')]]), 'doc': None}
                    q['fields'].insert(r.randrange(len(q['fields'])), f)
                    if q['fixed']:
                        q['attrs'] = [('max_payload_len' if k == 'fixed_payload_len' else k, str(q['size'] + 50) if k == 'fixed_payload_len' else v) for k, v in q['attrs']]
                m('unsized field before another', ch, lambda p: p['fields'] and not p['impls'], modes=(mode,))
        for o in (('maptype', 'CvU8'), ('kind', '3'), ('may_fails', None), ('map_type', None), ('scale', None), ('alias', None), ('scale', '1'), ('scale', '"1.0"'), ('scale', '1. / 3.'), ('alias', '"x"'), ('alias', '5'), ('may_fail', 'true'), ('get_as_ref', 'true'), ('map_type', '"u8"'), ('map_type', '5'), ('default', '0'), ('size', '4'), ('from', '|x| x'), ('is_valid', '"f"'), ('size_fn', '4'), ('class', '5')):
            def ch(q, o=o):
                f = r.choice([f for f in q['fields'] if plain(f) and f['size']])
                f['opts'] = f['opts'] + [o] if o[0] not in [x[0] for x in f['opts']] else [o]
            m('malformed or unknown option of a field', ch, has_plain)
        for _ in range(6):
            def ch(q):
                f = r.choice([f for f in q['fields'] if plain(f) and f['size'] and not f['ty'].startswith('[')])
                f['opts'] = self.insert(f['opts'], ('map_type', f['ty']))
            m('field mapped to its own type', ch, lambda p: any(plain(f) and f['size'] and not f['ty'].startswith('[') for f in p['fields']) and not p['impls'])
        # two attributes on one field
        for k in range(10):
            p = self.pk(lambda p: any(len(f['opts']) >= 2 and f['conv']['k'] in ('cust', 'enum', 'scale', 'bool', 'opt', 'str', 'sum') for f in p['fields']))
            q = copy.deepcopy(p)
            f = r.choice([f for f in q['fields'] if len(f['opts']) >= 2 and f['conv']['k'] in ('cust', 'enum', 'scale', 'bool', 'opt', 'str', 'sum')])
            t = render_packet(p)
            i = r.randrange(1, len(f['opts']))
            a, b = f['opts'][:i], f['opts'][i:]
            if k % 3 == 1:
                b = f['opts']
            whole = f"#[ubx({', '.join(descgen.opt_text(o) for o in f['opts'])})]"
            two = f"#[ubx({', '.join(descgen.opt_text(o) for o in a)})]\n    #[ubx({', '.join(descgen.opt_text(o) for o in b)})]"
            if t.count(whole + '\n    ' + f['name'] + ':') == 1:
                self.add('two attributes on one field', t, t.replace(whole + '\n    ' + f['name'] + ':', two + '\n    ' + f['name'] + ':'))
        for k in range(12):
            key = ('map_type', 'scale', 'alias', 'may_fail', 'from', 'into', 'is_valid', 'get_as_ref', 'map_type', 'from', 'scale', 'alias')[k]
            ok = lambda f: any(o[0] == key for o in f['opts'])
            p = self.pk(lambda p: any(ok(f) for f in p['fields']))
            q = copy.deepcopy(p)
            f = r.choice([f for f in q['fields'] if ok(f)])
            o = [o for o in f['opts'] if o[0] == key][0]
            if k >= 8:
                o = (key, {'map_type': 'NoSuchType9', 'from': 'no::such', 'scale': '7.5', 'alias': 'other9'}[key])
                f['opts'] = [o] + f['opts']       # the last one alone would be fine
            else:
                f['opts'] = self.insert(f['opts'], o)
            self.both('option of a field given twice', p, q)
        for o in (('from', 'u8_from2'), ('is_valid', 'u8_valid2'), ('may_fail', None), ('into', 'u8_into2'), ('size_fn', 'nothing')):
            for _ in range(2):
                def ch(q, o=o):
                    f = r.choice([f for f in q['fields'] if plain(f) and f['size']])
                    f['opts'] = self.insert(f['opts'], o)
                m('conversion option without a type to convert to', ch, has_plain)
        for _ in range(4):
            def ch(q):
                a, b = r.sample(q['fields'], 2)
                old = b['name']
                b['opts'] = [o for o in b['opts'] if o[0] != 'alias']
                b['name'] = a['get']
            m('two fields of one name', ch, lambda p: len(p['fields']) > 1 and not p['impls'])
        for _ in range(4):
            def ch(q):
                a, b = r.sample(q['fields'], 2)
                b['opts'] = [o for o in b['opts'] if o[0] != 'alias'] + [('alias', a['get'])]
            m('alias equal to another field', ch, lambda p: len(p['fields']) > 1 and not p['impls'])
        for o in ([('map_type', 'NoSuchType9')], [('map_type', 'CvU8'), ('from', 'no_such_fn')], [('map_type', 'CvU8'), ('may_fail', None), ('is_valid', 'no_such_fn')]):
            def ch(q, o=o):
                f = r.choice([f for f in q['fields'] if plain(f) and f['ty'] == 'u8'])
                f['opts'] = o
            m('conversion that does not exist', ch, lambda p: any(plain(f) and f['ty'] == 'u8' for f in p['fields']) and not p['impls'], modes=('recv', 'both'))
        sized = lambda p: p['impls']
        for k in range(8):
            def ch(q, k=k):
                i = next(i for i, f in enumerate(q['fields']) if f.get('sizefn'))
                f = {'name': 'late9', 'ty': r.choice(['u8', 'u16', 'i8', 'u32', 'f32', '[u8; 3]']) if k < 6 else '[u8; 0]', 'opts': [] if k < 6 else [('map_type', 'It1'), ('from', 'It1::new')], 'doc': None}
                q['fields'].insert(r.choice([i + 1, len(q['fields'])]) if k < 6 else len(q['fields']), f)
            m('field of fixed place after one of variable size', ch, sized, modes=('recv',))

        for k in range(4):
            def ch(q):
                i = next(i for i, f in enumerate(q['fields']) if f.get('sizefn'))
                o = next(o for o in q['fields'][i]['opts'] if o[0] == 'size_fn')
                q['fields'][i]['opts'].remove(o)
                q['fields'].insert(i, {'name': 'sized9', 'ty': 'u8', 'opts': [('map_type', 'CvU8'), o], 'doc': None})
            m('size function on a field of fixed size', ch, lambda p: sum(1 for f in p['fields'] if f.get('sizefn')) == 1, modes=('recv',))
        for k in range(4):
            ok = lambda f: f['fail'] and any(o[0] == 'is_valid' for o in f['opts'])
            p = self.pk(lambda p: any(ok(f) for f in p['fields']), modes=('recv', 'both'))
            q = copy.deepcopy(p)
            f = r.choice([f for f in q['fields'] if ok(f)])
            f['opts'] = [o for o in f['opts'] if o[0] != 'may_fail'] + ([] if any(o[0] == 'from' for o in f['opts']) else [('from', f['conv'].get('e', '') + '::from_unchecked' if f['conv']['k'] == 'enum' else self.explicit(f))])
            self.both('validity function for a field that cannot fail', p, q)

    def explicit(self, f):
        return next(o[1] for o in f['opts'] if o[0] == 'map_type') + '::from_unchecked'

    # ---- enumerations
    def enums(self):
        r = self.r

        def m(kind, change, want=None, text=None):
            e = self.en(want)
            q = copy.deepcopy(e)
            if text:
                t = render_enum(e)
                self.add(kind, t, text(t, e))
            else:
                change(q)
                self.both(kind, e, q, render_enum)

        def noattr(q):
            q['attrs'] = [a for a in q['attrs'] if not a.startswith('#[ubx(')]
        m('enumeration without attribute', noattr)
        for a in ('#[ubx]', '#[ubx = "from"]'):
            def ch(q, a=a):
                q['attrs'] = [a if x.startswith('#[ubx(') else x for x in q['attrs']]
            m('enumeration without attribute', ch)

        def two(q):
            q['attrs'] = self.insert(q['attrs'], r.choice(['#[ubx(into_raw)]', '#[ubx(from, rest_reserved)]', '#[ubx(from_unchecked, rest_error)]']))
        for _ in range(4):
            m('enumeration with two attributes', two)

        def norepr(q):
            q['attrs'] = [a for a in q['attrs'] if not a.startswith('#[repr')]
        m('enumeration without representation', norepr)
        for a in ('#[repr(u16)]', '#[repr(i8)]', '#[repr(u32)]', '#[repr(C)]', '#[repr(usize)]', '#[repr(u8, C)]', '#[repr]', '#[repr(i16)]', '#[repr("u8")]'):
            def ch(q, a=a):
                q['attrs'] = [a if x.startswith('#[repr') else x for x in q['attrs']]
            m('enumeration of another representation', ch)

        def lit(kind, v, want=None):
            def ch(q):
                i = r.randrange(len(q['lits']))
                q['lits'][i] = v
            for _ in range(2):
                m(kind, ch, want)
        for v in ('256', '0x100', '1000', '65536', '0xFFFF_FFFF', '-1', '"1"', '1.0', "b'a'", '2 + 3', 'u8::MAX', "'a'", 'true', '(5)', '{ 5 }'):
            lit('value of an enumeration not a literal below 256', v)
        for _ in range(3):
            def text(t, e):
                i = r.randrange(len(e['lits']))
                n = e['variants'][i][0]
                return t.replace(f"    {n} = {e['lits'][i]},\n", r.choice([f'    {n},\n', f'    {n}(u8) = {e["lits"][i]},\n', f'    {n} {{ x: u8 }} = {e["lits"][i]},\n', f'    {n}(),\n']))
            m('variant without value or with contents', None, None, text)

        def dupv(q):
            i, j = r.sample(range(len(q['lits'])), 2)
            q['lits'][i] = str(q['variants'][j][1])
        for k in ('from', 'unchecked', 'nofrom', 'unchecked_norest'):
            m('value given twice', dupv, lambda e, k=k: len(e['variants']) > 1 and e['kind'] == k)

        def dupn(q):
            i, j = r.sample(range(len(q['variants'])), 2)
            q['variants'][i] = (q['variants'][j][0], q['variants'][i][1])
        for _ in range(2):
            m('variant named twice', dupn, lambda e: len(e['variants']) > 1)

        def clash(q):
            v = next(v for v in range(256) if v not in [x[1] for x in q['variants']])
            q['variants'][0] = (f'Reserved{v}', q['variants'][0][1])
        m('variant named like a reserved one', clash, lambda e: e['reserved'])

        def opts(kind, change, want=None):
            def ch(q):
                q['opts'] = change(list(q['opts']))
                q['attrs'] = ['#[ubx(' + ', '.join(q['opts']) + ')]' if x.startswith('#[ubx(') else x for x in q['attrs']]
            for _ in range(2):
                m(kind, ch, want)
        opts('both treatments of other values', lambda o: self.insert(o, 'rest_error'), lambda e: 'rest_reserved' in e['opts'])
        opts('both treatments of other values', lambda o: self.insert(o, 'rest_reserved'), lambda e: 'rest_error' in e['opts'])
        opts('treatment of other values given twice', lambda o: self.insert(o, 'rest_reserved'), lambda e: 'rest_reserved' in e['opts'])
        opts('total conversion with failing other values', lambda o: ['rest_error' if x == 'rest_reserved' else x for x in o], lambda e: e['kind'] == 'from')
        opts('total conversion without other values', lambda o: [x for x in o if x != 'rest_reserved'], lambda e: e['kind'] == 'from' and len(e['variants']) < 256)
        opts('partial conversion with reserved values', lambda o: ['rest_reserved' if x == 'rest_error' else x for x in o], lambda e: e['kind'] == 'unchecked')
        opts('both conversions', lambda o: self.insert(o, 'from'), lambda e: e['kind'] == 'unchecked_norest')
        opts('both conversions', lambda o: self.insert(o, 'from_unchecked'), lambda e: e['kind'] == 'from')
        opts('both conversions', lambda o: self.insert(o, 'from'), lambda e: e['kind'] == 'unchecked')
        opts('both conversions', lambda o: ['from_unchecked'] + o, lambda e: e['kind'] in ('all', 'from'))
        for x in ('into', 'From', 'rest', 'from = u8', '"from"', 'from(u8)', 'reserved', '3', 'try_from'):
            opts('unknown option of an enumeration', lambda o, x=x: self.insert(o, x))
        for item in ('struct En { a: u8 }', 'struct En;', 'fn en() {}', 'union En { a: u8, b: u8 }'):
            self.add('not an enumeration', '#[ubx_extend]\n#[ubx(from, rest_reserved)]\n#[repr(u8)]\n#[derive(Clone, Copy)]\nenum En { A = 1 }\n', f'#[ubx_extend]\n#[ubx(from, rest_reserved)]\n{item}\n')

    # ---- flag sets
    def flagsets(self):
        r = self.r

        def m(kind, change, want=None, text=None):
            e = self.fl(want)
            q = copy.deepcopy(e)
            if text:
                t = render_flags(e)
                self.add(kind, t, text(t, e))
            else:
                change(q)
                self.both(kind, e, q, render_flags)
        for t in ('u64', 'i8', 'i32', 'usize', 'u128', 'bool', 'f32', 'i16', '[u8; 1]'):
            def ch(q, t=t):
                q['ty'] = t
            m('type of a flag set not supported', ch)

        def lit(kind, f, want=None, n=2):
            def ch(q):
                i = r.randrange(len(q['lits']))
                q['lits'][i] = f(q, i)
            for _ in range(n):
                m(kind, ch, want)
        lit('flag zero', lambda q, i: '0')
        lit('flag of several bits', lambda q, i: r.choice(['3', '0b101', '0x18', '6', '255', '0b11']), n=6)
        lit('flag outside the type', lambda q, i: {'u8': '0x100', 'u16': '0x1_0000', 'u32': '0x1_0000_0000'}[q['ty']], n=6)
        lit('flag outside the type', lambda q, i: {'u8': '512', 'u16': '0x8000_0000', 'u32': '0x8000_0000_0000_0000'}[q['ty']], n=4)
        lit('flag far outside the type', lambda q, i: '0x1_0000_0000_0000_0000')
        lit('flag not a literal', lambda q, i: r.choice(['1 << 3', 'X', '-1', '"1"', '1.0', '(1)', 'u8::MAX', "b'a'"]), n=10)
        more = lambda e: len(e['consts']) > 1

        def dup(q):
            i, j = r.sample(range(len(q['lits'])), 2)
            q['lits'][i] = q['lits'][j]
        for _ in range(4):
            m('flag given twice', dup, more)

        def dupn(q):
            i, j = r.sample(range(len(q['consts'])), 2)
            q['consts'][i] = (q['consts'][j][0], q['consts'][i][1])
        for _ in range(2):
            m('flag named twice', dupn, more)

        def clash(q):
            b = next(b for b in range(descgen.SIZES[q['ty']] * 8) if b not in [x[1] for x in q['consts']])
            q['consts'][0] = (f'RESERVED{b}', q['consts'][0][1])
        m('flag named like a reserved one', clash, lambda e: len(e['consts']) < descgen.SIZES[e['ty']] * 8)

        def opts(kind, f, n=2):
            def ch(q):
                q['opts'] = f(list(q['opts']))
            for _ in range(n):
                m(kind, ch)
        opts('flag set with failing other bits', lambda o: ['rest_error' if x == 'rest_reserved' else x for x in o])
        opts('flag set without treatment of other bits', lambda o: [x for x in o if x != 'rest_reserved'])
        opts('flag set with both treatments', lambda o: self.insert(o, 'rest_error'))
        opts('flag set with partial conversion', lambda o: self.insert([x for x in o if x != 'from'], 'from_unchecked'))
        for x in ('into', 'bits', 'from = 1', '"x"', 'unknown'):
            opts('unknown option of a flag set', lambda o, x=x: self.insert(o, x), 1)
        sub = lambda a, b: (lambda t, e: t.replace(a, b, 1))
        m('not a flag set', None, None, sub('bitflags! {', 'flagbits! {'))
        m('not a flag set', None, None, sub('bitflags! {', 'std::vec! {'))
        m('not a flag set', None, None, lambda t, e: t.replace(f"struct {e['name']}", f"enum {e['name']}", 1))
        m('not a flag set', None, None, lambda t, e: t.replace(f": {e['ty']} {{", ' {', 1))
        m('not a flag set', None, None, lambda t, e: t.replace('        const ', '        static ', 1))
        m('not a flag set', None, lambda e: len(e['consts']) > 1, lambda t, e: t.replace(';\n        const', ',\n        const', 1))
        m('flag set without attribute', None, None, lambda t, e: re.sub(r'#\[ubx\(.*\]\n', '', t, count=1))
        for _ in range(3):
            m('flag set with two attributes', None, None, lambda t, e: re.sub(r'(#\[ubx\(.*\]\n)', lambda mm: mm.group(1) + r.choice(['#[ubx(rest_reserved)]\n', '#[ubx(from, rest_error)]\n', '#[ubx(into_raw)]\n']), t, count=1))
        self.add('not a flag set', '#[ubx_extend_bitflags]\n#[ubx(from, rest_reserved)]\nbitflags! { struct Fl: u8 { const A = 1; } }\n', '#[ubx_extend_bitflags]\n#[ubx(from, rest_reserved)]\nstruct Fl { a: u8 }\n')

    # ---- dispatch
    def dispatches(self):
        r = self.r
        head = ''.join(f'#[ubx_packet_{m}]\n#[ubx(class = {i}, id = 2, fixed_payload_len = 3)]\nstruct D{i} {{ a: u8, b: u16 }}\n' for i, m in enumerate(('recv', 'recv_send', 'recv', 'send')))

        def d(e='Set', inner='_ = UbxUnknownPacketRef,\n D0, D1, D2,', kw='enum', o='{', c='}'):
            return head + f'define_recv_packets!(\n {kw} {e} {o}\n {inner}\n {c}\n);\n'
        good = d()
        for kind, bad in [
                ('dispatch without its unknown packet', d(inner='D0, D1, D2')), ('dispatch without its unknown packet', d(inner='_ = , D0, D1')), ('dispatch without its unknown packet', d(inner='_, D0, D1')),
                ('dispatch with an unknown-packet type that does not exist', d(inner='_ = NoSuchThing9, D0, D1')), ('dispatch not an enumeration', d(kw='struct')), ('dispatch not an enumeration', d(kw='')),
                ('dispatch without a name', d(e='')), ('dispatch without braces', d(o='', c='')), ('dispatch without braces', d(o='[', c=']')),
                ('packet listed twice', d(inner='_ = UbxUnknownPacketRef, D0, D1, D0')), ('packet listed twice', d(inner='_ = UbxUnknownPacketRef, D2, D2')),
                ('packet that does not exist', d(inner='_ = UbxUnknownPacketRef, D0, NoSuch9')), ('packet that cannot be received', d(inner='_ = UbxUnknownPacketRef, D0, D3, D1')),
                ('packet list malformed', d(inner='_ = UbxUnknownPacketRef, D0 D1')), ('packet list malformed', d(inner='_ = UbxUnknownPacketRef, D0; D1')), ('packet list malformed', d(inner='_ = UbxUnknownPacketRef, D0, 5')),
                ('packet list malformed', d(inner='_ = UbxUnknownPacketRef, self::D0, D1')), ('packet list malformed', d(inner='_ = UbxUnknownPacketRef D0')), ('packet list malformed', d(inner='_ = UbxUnknownPacketRef, D0,, D1')),
                ('packet named like the unknown variant', d(inner='_ = UbxUnknownPacketRef, D0, Unknown').replace('struct D2', 'struct Unknown')), ('packet list malformed', d(inner='_ = UbxUnknownPacketRef, D0 = 1, D1'))]:
            self.add(kind, good, bad)
        good2 = d().replace('Unknown', 'Unknown')

    def all(self, rounds=1):
        for _ in range(rounds):
            self.packet_attrs()
            self.packet_fields()
            self.enums()
            self.flagsets()
            self.dispatches()
        return self.cases


def source(b, keep):
    """keep: set of ('good' | 'bad', case id) to compile; good twins of equal text are compiled once."""
    out = ['//@ prelude', descgen.prelude(), 'pub mod base {', 'use super::*;', 'pub const N: usize = 4;', 'pub type U8 = u8;']
    out += [render_enum(e) for e in b.base['enums']] + [render_flags(e) for e in b.base['flags']]
    for e in b.base['enums']:
        d = dict((v, k) for k, v in e['variants'])[e['default']]
        out.append(f'impl Default for {e["name"]} {{ fn default() -> Self {{ {e["name"]}::{d} }} }}')
    seen = set()
    for c in b.cases:
        for side in ('good', 'bad'):
            if (side, c['id']) not in keep:
                continue
            if side == 'good':
                if c['good'] in seen:
                    continue
                seen.add(c['good'])
            out += [f"//@ {side} {c['id']}", f"pub mod {side}{c['id']} {{ use super::*;", c[side], '}']
    out += ['//@ end', '}', "pub const GROUPS: &[Gr] = &[];"]
    return '\n'.join(out) + '\n'
