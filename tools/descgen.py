"""Random packet, enumeration, flag-set and dispatch descriptions (C19, C24).

A description is data; render_*() turn it into source the macros read, model() into what the monitors judge by."""
import json, os, random
HERE = os.path.dirname(os.path.abspath(__file__))
INTS = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4}
SIZES = dict(INTS, f32=4, f64=8)
CV = {t: 'Cv' + t.upper() for t in INTS}
WIDER = {'u8': ['u16', 'u32', 'i32', 'i16'], 'i8': ['i16', 'i32'], 'u16': ['u32', 'i32'], 'i16': ['i32']}
SCALES = ['1e-7', '1e-2', '0.1', '1.0e-3', '2.5', '1e2', '0.5', '1e-5', '0.25', '4.656612873077393e-10', '1e1', '0.0625', '1e-9', '3.0']
# names that also occur inside generated code
LOCALS = ['val', 'payload', 'got', 'expect', 'min', 'offset', 'bytes', 'ret', 'out', 'header', 'len_bytes', 'checksum_calc', 'state', 'f', 'x', 'start', 'class', 'id', 'msg_id', 'data', 'name', 'vec', 'ck_a', 'msg', 'packet', 'field', 'len']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def lit(self, v, wide=False):
        """An integer literal."""
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return hex(v)
        if k == 1:
            return '0x%02X' % v
        if k == 2:
            return bin(v)
        if k == 3 and v > 9:
            s = str(v)
            return s[0] + '_' + s[1:]
        return str(v)

    def doc(self):
        return self.r.choice([None, None, 'Some "quoted" text', 'a line', '{}', ''])

    # ---- enumerations
    def enum(self, name):
        r = self.r
        kind = r.choice(['from', 'from', 'from', 'unchecked', 'unchecked', 'unchecked_norest', 'all', 'nofrom', 'nofrom_rest', 'from', 'unchecked'])
        if kind == 'all' and r.random() < 0.6:
            kind = 'from'
        n = 256 if kind == 'all' else r.choice([1, 2, 3, 5, 8, 20, 60, 255 if kind != 'unchecked' else 200])
        vals = r.sample(range(256), n)
        if r.random() < 0.5 and n < 256 and 255 not in vals:
            vals[0] = 255
        if r.random() < 0.5 and 0 not in vals:
            vals[-1] = 0
        if r.random() < 0.3:
            vals.sort()
        into = kind == 'nofrom' or r.random() < 0.8
        opts = {'from': ['from', 'rest_reserved'], 'unchecked': ['from_unchecked', 'rest_error'], 'unchecked_norest': ['from_unchecked'], 'all': ['from'] + r.choice([[], ['rest_reserved']]), 'nofrom': [], 'nofrom_rest': ['rest_reserved']}[kind] + (['into_raw'] if into else [])
        r.shuffle(opts)
        names = [f'V{v}' if r.random() < 0.7 else r.choice(['Alpha', 'beta', 'GAMMA', 'D3', 'None', 'Some', 'Ok', 'Self_', 'Default']) + f'_{v}' for v in vals]
        attrs = ['#[ubx(' + ', '.join(opts) + r.choice(['', ',' if opts else '']) + ')]', '#[repr(u8)]', '#[derive(Clone, Copy, Debug, PartialEq, Eq)]']
        r.shuffle(attrs)
        return {'name': name, 'kind': kind, 'variants': list(zip(names, vals)), 'opts': opts, 'attrs': attrs, 'vis': r.choice(['pub ', 'pub ', '', 'pub(crate) ']), 'doc': self.doc(),
                'lits': [self.lit(v) + r.choice(['', '', '', 'u8' if not 0 else '']) for v in vals], 'default': vals[0], 'reserved': 'rest_reserved' in opts}

    # ---- flag sets
    def flags(self, name):
        r = self.r
        ty = r.choice(['u8', 'u8', 'u16', 'u32'])
        bits = r.sample(range(SIZES[ty] * 8), r.choice([1, 2, 5, SIZES[ty] * 8, SIZES[ty] * 4]))
        opts = ['rest_reserved'] + [o for o in ('from', 'into_raw') if r.random() < 0.85]
        r.shuffle(opts)
        return {'name': name, 'ty': ty, 'consts': [(r.choice(['A', 'FLAG_', 'B2_', 'Mixed']) + str(b), b) for b in bits], 'opts': opts, 'lits': [self.lit(1 << b) for b in bits], 'vis': r.choice(['pub ', 'pub ', 'pub(crate) ']), 'semi': r.choice(['', ';']), 'doc': self.doc()}

    # ---- packets
    def packet(self, name, g, mode=None, class_id=None, simple=False):
        r = self.r
        mode = mode or r.choice(['recv', 'recv', 'recv', 'both', 'both', 'send', 'dynamic'])
        p = {'name': name, 'mode': mode, 'doc': self.doc(), 'vis': r.choice(['', 'pub ']), 'fields': [], 'impls': [], 'default': False}
        recv, send = mode in ('recv', 'both'), mode in ('both', 'send', 'dynamic')
        p['default'] = send and r.random() < 0.4
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20, 2, 3, 5, 4, 40]) if not simple else r.choice([2, 3, 4])
        used = set()
        tail = None
        if recv and not send and r.random() < 0.5:
            tail = r.choice(['iter', 'iter', 'optional', 'size_fn', 'size_fn'])
        if tail == 'size_fn' or mode == 'dynamic' or simple:
            n = max(n, 1)
        off = 0
        for i in range(n):
            f = self.field(i, g, recv, send, p['default'], used, first_count=(i == 0 and tail == 'size_fn'))
            f['off'] = off
            off += f['size']
            p['fields'].append(f)
        if mode == 'dynamic':
            f = self.base(used, n)
            f.update(ty="&'a [Item]", size=0, raw='items', conv={'k': 'items'}, off=off)
            p['fields'].append(f)
        if tail in ('iter', 'optional'):
            f = self.base(used, n)
            f.update(ty=r.choice(['[u8; 0]', '[u8; 0]', '&[u8]', "&'static [u8]"]), size=0, raw='bytes', off=off)
            self.tail_conv(f, tail)
            p['fields'].append(f)
        if tail == 'size_fn':
            cnt = p['fields'][0]
            k = r.choice([1, 1, 2, 2, 3, 4])
            for j in range(k):
                f = self.base(used, n + j)
                f.update(ty=r.choice(['[u8; 0]', '&[u8]']), size=0, raw='bytes', off=off)
                self.tail_conv(f, r.choice(['iter', 'optional']), sized=True)
                mul, mask, shift = r.choice([(1, 7, 0), (2, 7, 0), (3, 15, 0), (4, 1, 3), (4, 3, 6), (1, 255, 0), (5, 127, 0), (0, 1, 0)])
                fn = f'size_{j}_of'
                f['opts'].insert(r.randrange(len(f['opts']) + 1), ('size_fn', fn))
                f['sizefn'] = {'mul': mul, 'mask': mask, 'shift': shift}
                p['impls'].append(f"impl<'a> {name}Ref<'a> {{ fn {fn}(&self) -> usize {{ ((self.{cnt['get']}() >> {shift}) as usize & {mask}) * {mul} }} }}")
                p['fields'].append(f)
        p['size'] = off
        p['fixed'] = tail is None and mode != 'dynamic'
        attrs = [('class', None), ('id', None)]
        p['class'], p['id'] = class_id or (r.randrange(256), r.randrange(256))
        if p['fixed']:
            p['max'] = off
            attrs.append(('fixed_payload_len', self.lit(off)))
        else:
            p['max'] = off + r.choice([0, 10, 200, 1000, 8000])
            attrs.append(('max_payload_len', self.lit(p['max'])))
        attrs[0] = ('class', self.lit(p['class']))
        attrs[1] = ('id', self.lit(p['id']))
        if p['default']:
            attrs.append(('flags', '"default_for_builder"'))
        r.shuffle(attrs)
        p['attrs'] = attrs
        return p

    def base(self, used, i):
        r = self.r
        while True:
            name = r.choice(LOCALS) if r.random() < 0.35 else r.choice(['f', 'speed_', 'a', 'Zz', 'reserved']) + str(i)
            if name not in used:
                break
        alias = None
        if r.random() < 0.25:
            while True:
                alias = r.choice(LOCALS) if r.random() < 0.4 else f'al_{i}'
                if alias not in used and alias != name:
                    break
        # generated getters: <get>, <get>_raw
        used.update([name] + ([alias] if alias else []))
        f = {'name': name, 'alias': alias, 'get': alias or name, 'opts': [], 'doc': self.doc(), 'fail': False, 'valid': None, 'sizefn': None, 'hasraw': False, 'out': None, 'enc': None}
        if alias:
            f['opts'].append(('alias', alias))
        return f

    def shuf(self, f):
        self.r.shuffle(f['opts'])

    def fail(self, f, rule, fn=None, always=False):
        """The field is checked: its validity rule, and the function named for it (None: the type's is_valid)."""
        f['fail'] = True
        f['valid'] = rule
        f['opts'].append(('may_fail', None))
        if fn:
            f['opts'].append(('is_valid', fn))

    def tail_conv(self, f, kind, allow_fail=True, sized=False):
        r = self.r
        f['hasraw'] = False
        if kind == 'optional':
            ty, fn, k = r.choice([('Option<u32>', 'b_opt32', 'opt32'), ('Option<&str>', 'b_optstr', 'optstr')])
            f['out'] = ty
            f['opts'] += [('map_type', ty), ('from', fn)]
            f['conv'] = {'k': k}
            if allow_fail and r.random() < 0.4:
                self.fail(f, {'v': 'first'}, 'b_first')
        else:
            w = r.choice([1, 2, 3, 4])
            ty = f'It{w}'
            f['out'] = ty
            f['opts'].append(('map_type', ty))
            how = r.choice(['default', 'new', 'new'])
            tag = 0
            if how == 'new':
                f['opts'].append(('from', ty + '::new'))
            if allow_fail and r.random() < 0.6:
                if sized or r.random() < 0.4:
                    self.fail(f, {'v': 'first'}, 'b_first')
                else:
                    self.fail(f, {'v': 'len', 'k': w}, r.choice([None, ty + '::is_valid']))
            if how == 'default':
                tag = 2 if f['fail'] else 1
            f['conv'] = {'k': 'iter', 'w': w, 'tag': tag}
            if r.random() < 0.3:
                f['opts'].append(('get_as_ref', None))
        self.shuf(f)

    def field(self, i, g, recv, send, default, used, first_count=False):
        r = self.r
        f = self.base(used, i)
        if first_count:
            ty = r.choice(['u8', 'u8', 'u16', 'u32'])
            f.update(ty=ty, size=SIZES[ty], raw=ty, conv={'k': 'plain'})
            return f
        kinds = ['plain'] * 5 + ['array'] * 2 + ['scale'] * 4 + ['enum'] * 3 + ['flags'] * 2 + ['cust'] * 4 + ['bool', 'opt', 'widen', 'plus1']
        if recv and not send:
            kinds += ['str'] * 2 + ['asbytes', 'sum', 'rawscale', 'optstr_fixed']
        else:
            kinds += ['sum4']
        while True:
            k = r.choice(kinds)
            if k == 'plain':
                ty = r.choice(list(SIZES))
                f.update(ty=ty, size=SIZES[ty], raw=ty, conv={'k': 'plain'})
                if ty == 'u8' and r.random() < 0.3:
                    pass
            elif k == 'array':
                n = r.choice([1, 2, 3, 4, 5, 8, 16, 30, 32] + ([] if default or recv else [33, 64, 200, 257]))
                f.update(ty=f'[u8; {self.lit(n)}]', size=n, raw='bytes', conv={'k': 'plain'})
            elif k == 'scale':
                fl = r.choice(['f64', 'f64', 'f32'])
                raw = r.choice(['u8', 'i8', 'u16', 'i16'] + (['u32', 'i32', 'u32', 'i32'] if fl == 'f64' else []) + (['f32'] if fl == 'f64' and not send else []))
                s = r.choice(SCALES)
                f.update(ty=raw, size=SIZES[raw], raw=raw, out=fl, hasraw=True, conv={'k': 'scale', 'f': fl, 'scale': s, 'plus1': False}, enc={'k': 'scale', 'f': fl, 'scale': s})
                f['opts'] += [('map_type', fl), ('scale', s)]
                q = r.random()
                if fl == 'f64' and raw in INTS and q < 0.15:
                    f['opts'].append(('from', raw + '_plus1'))
                    f['conv']['plus1'] = True
                elif fl == 'f64' and raw in INTS and send and q < 0.3:
                    # the inverse spelled out, with another factor than the getter's
                    s2 = r.choice(['0.5', '1e-3', '2.0'])
                    f['opts'].append(('into', f'ScaleBack::<f64>(1. / {s2}).as_{raw}'))
                    f['enc']['scale'] = s2
                if recv and raw in INTS and r.random() < 0.15:
                    self.fail(f, {'v': 'mod7'}, raw + '_valid2')
                    if not f['conv']['plus1']:
                        f['conv']['plus1'] = fl == 'f64' and r.random() < 0.5
                        f['opts'].append(('from', raw + '_plus1' if f['conv']['plus1'] else fl + '::from'))
            elif k == 'rawscale':
                raw = r.choice(['f32', 'f64'])
                s = r.choice(SCALES)
                f.update(ty=raw, size=SIZES[raw], raw=raw, conv={'k': 'rawscale', 'scale': s})
                f['opts'].append(('scale', s))
            elif k == 'enum':
                c = [e for e in g['enums'] if (not recv or e['kind'] in ('from', 'all', 'unchecked', 'unchecked_norest')) and (not send or 'into_raw' in e['opts'])]
                if not c:
                    continue
                e = r.choice(c)
                un = e['kind'].startswith('unchecked')
                f.update(ty='u8', size=1, raw='u8', out=e['name'], hasraw=True, conv={'k': 'enum', 'e': e['name']}, enc={'k': 'enum', 'e': e['name']})
                f['opts'].append(('map_type', e['name']))
                if recv and un:
                    self.fail(f, {'v': 'enum', 'e': e['name']}, r.choice([None, None, e['name'] + '::is_valid']))
                    if r.random() < 0.3:
                        f['opts'].append(('from', e['name'] + '::from_unchecked'))
                elif recv and r.random() < 0.15:
                    self.fail(f, {'v': 'mod7'}, 'u8_valid2')
                    f['opts'].append(('from', e['name'] + '::from'))
            elif k == 'flags':
                c = [e for e in g['flags'] if (not recv or 'from' in e['opts']) and (not send or 'into_raw' in e['opts'])]
                if not c:
                    continue
                e = r.choice(c)
                f.update(ty=e['ty'], size=SIZES[e['ty']], raw=e['ty'], out=e['name'], hasraw=True, conv={'k': 'flags', 'e': e['name']}, enc={'k': 'flags', 'e': e['name']})
                f['opts'].append(('map_type', e['name']))
            elif k == 'cust':
                ty = r.choice(list(INTS))
                c = CV[ty]
                f.update(ty=ty, size=SIZES[ty], raw=ty, out=c, hasraw=True, conv={'k': 'cust', 'fn': 'from'}, enc={'k': 'cust', 'fn': 'into_raw'})
                f['opts'].append(('map_type', c))
                deep = 'deep::er::' if ty in ('u8', 'u16') and r.random() < 0.3 else ''
                if r.random() < 0.5 and recv:
                    if r.random() < 0.5:
                        self.fail(f, {'v': 'mod5'}, r.choice([None, c + '::is_valid']))
                    else:
                        self.fail(f, {'v': 'mod7'}, deep + ty + '_valid2')
                    f['conv']['fn'] = 'from_unchecked'
                q = r.random()
                if q < 0.3:
                    f['opts'].append(('from', deep + ty + '_from2'))
                    f['conv']['fn'] = 'from2'
                elif q < 0.5:
                    f['conv']['fn'] = r.choice(['from', 'from_unchecked'])
                    f['opts'].append(('from', c + '::' + f['conv']['fn']))
                if r.random() < 0.4:
                    f['opts'].append(('into', deep + ty + '_into2'))
                    f['enc']['fn'] = 'into2'
            elif k == 'bool':
                ty = r.choice(list(INTS))
                f.update(ty=ty, size=SIZES[ty], raw=ty, out='bool', hasraw=True, conv={'k': 'bool'}, enc={'k': 'bool'})
                f['opts'] += [('map_type', 'bool'), ('from', ty + '_odd'), ('into', ty + '_of_bool')]
                if recv and r.random() < 0.6:
                    self.fail(f, {'v': 'le3'}, ty + '_small')
            elif k == 'opt':
                ty = r.choice(list(INTS))
                f.update(ty=ty, size=SIZES[ty], raw=ty, out=f'Option<{ty}>', hasraw=True, conv={'k': 'opt'}, enc={'k': 'opt'})
                f['opts'] += [('map_type', f'Option<{ty}>'), ('from', ty + '_opt'), ('into', ty + '_of_opt')]
            elif k == 'widen':
                ty = r.choice(list(WIDER))
                w = r.choice(WIDER[ty])
                f.update(ty=ty, size=SIZES[ty], raw=ty, out=w, hasraw=True, conv={'k': 'widen'}, enc={'k': 'narrow'})
                f['opts'] += [('map_type', w)] + ([('into', f'{w}_to_{ty}')] if send else [])
            elif k == 'plus1':
                ty = r.choice(list(INTS))
                f.update(ty=ty, size=SIZES[ty], raw=ty, out='f64', hasraw=True, conv={'k': 'plus1'}, enc={'k': 'trunc'})
                f['opts'] += [('map_type', 'f64'), ('from', ty + '_plus1'), ('into', ty + '_of_f64')]
            elif k in ('str', 'optstr_fixed', 'asbytes', 'sum'):
                n = r.choice([1, 3, 4, 10, 30])
                f.update(ty=f'[u8; {self.lit(n)}]', size=n, raw='bytes', hasraw=True)
                f['opts'].append(('get_as_ref', None))
                if k == 'str':
                    f['out'] = '&str'
                    f['opts'] += [('map_type', '&str'), ('from', 'b_str')]
                    f['conv'] = {'k': 'str'}
                    if r.random() < 0.7:
                        self.fail(f, {'v': 'utf8'}, 'b_utf8')
                elif k == 'optstr_fixed':
                    f['out'] = 'Option<&str>'
                    f['opts'] += [('map_type', 'Option<&str>'), ('from', 'b_optstr')]
                    f['conv'] = {'k': 'optstr'}
                elif k == 'asbytes':
                    f['out'] = '&[u8]'
                    f['opts'] += [('map_type', '&[u8]'), ('from', 'b_same')]
                    f['conv'] = {'k': 'plain'}
                    if r.random() < 0.5:
                        self.fail(f, {'v': 'first'}, 'b_first')
                else:
                    f['out'] = 'Sum'
                    f['opts'].append(('map_type', 'Sum'))
                    plus = 0
                    if r.random() < 0.5:
                        self.fail(f, {'v': 'first'}, r.choice([None, 'b_first', 'Sum::is_valid']))
                        plus = 1
                    if r.random() < 0.4:
                        f['opts'].append(('from', 'Sum::plus2'))
                        plus = 2
                    f['conv'] = {'k': 'sum', 'plus': plus}
            elif k == 'sum4':
                n = r.choice([2, 4])
                f.update(ty=f'[u8; {n}]', size=n, raw='bytes', hasraw=True, out='Sum', conv={'k': 'sum', 'plus': 2}, enc={'k': 'sum'})
                f['opts'] += [('get_as_ref', None), ('map_type', 'Sum'), ('from', 'Sum::plus2'), ('into', f'sum_to_u{n * 8}')]
            break
        self.shuf(f)
        return f

    def group(self, k, npackets=12):
        r = self.r
        g = {'name': f'g{k}', 'enums': [self.enum(f'E{k}x{i}') for i in range(8)], 'flags': [self.flags(f'F{k}x{i}') for i in range(4)], 'packets': []}
        for i in range(npackets):
            cid = None
            if g['packets'] and r.random() < 0.35:
                o = r.choice(g['packets'])
                cid = (o['class'], r.choice([o['id'], o['id'], r.randrange(256)]))
            g['packets'].append(self.packet(f'P{k}x{i}', g, class_id=cid))
        rx = [p['name'] for p in g['packets'] if p['mode'] in ('recv', 'both')]
        if not rx:
            g['packets'].append(self.packet(f'P{k}x{npackets}', g, mode='recv'))
            rx = [f'P{k}x{npackets}']
        r.shuffle(rx)
        g['dispatch'] = {'enum': r.choice(['PackSet', 'All', 'Incoming', 'PacketRef']), 'order': rx, 'comma': r.random() < 0.5}
        return g


# ---- source text
def opt_text(o):
    return o[0] if o[1] is None else f'{o[0]} = {o[1]}'


def doc_text(d, ind):
    return '' if d is None else f'{ind}///{" " + d if d else ""}\n'


def render_field(f, ind='    '):
    a = f"{ind}#[ubx({', '.join(opt_text(o) for o in f['opts'])})]\n" if f['opts'] else ''
    return doc_text(f['doc'], ind) + a + f"{ind}{f['name']}: {f['ty']},\n"


MACRO = {'recv': 'ubx_packet_recv', 'both': 'ubx_packet_recv_send', 'send': 'ubx_packet_send', 'dynamic': 'ubx_packet_send'}


def render_packet(p):
    return (doc_text(p['doc'], '') + f"#[{MACRO[p['mode']]}]\n#[ubx({', '.join(f'{k} = {v}' for k, v in p['attrs'])})]\n"
            f"{p['vis']}struct {p['name']}{chr(60) + chr(39) + 'a>' if p['mode'] == 'dynamic' else ''} {{\n" + ''.join(render_field(f) for f in p['fields']) + '}\n' + ''.join(i + '\n' for i in p['impls']))


def render_enum(e):
    return doc_text(e['doc'], '') + '#[ubx_extend]\n' + ''.join(a + '\n' for a in e['attrs']) + f"{e['vis']}enum {e['name']} {{\n" + ''.join(f'    {n} = {l},\n' for (n, v), l in zip(e['variants'], e['lits'])) + '}\n'


def render_flags(e):
    body = ';\n'.join(f'        const {n} = {l}' for (n, b), l in zip(e['consts'], e['lits'])) + e['semi']
    return (f"#[ubx_extend_bitflags]\n#[ubx({', '.join(e['opts'])})]\nbitflags! {{\n{doc_text(e['doc'], '    ')}    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq)]\n    {e['vis']}struct {e['name']}: {e['ty']} {{\n{body}\n    }}\n}}\n")


def render_dispatch(g):
    d = g['dispatch']
    return f"define_recv_packets!(\n    enum {d['enum']} {{\n        _ = UbxUnknownPacketRef,\n        " + ',\n        '.join(d['order']) + (',' if d['comma'] else '') + '\n    }\n);\n'


# ---- observers (inside the crate, beside the generated code)
def enum_value(e, expr):
    return f"mk_{e}({expr})"


def input_expr(f, i):
    x = f'i[{i}]'
    c, raw = f['conv'], f['raw']
    k = c['k']
    if k == 'items':
        return f'&items'
    if k == 'enum':
        return f"mk_{c['e']}({x}.i() as u8)"
    if k == 'flags':
        return f"{c['e']}::from_bits_retain({x}.i() as {raw})"
    if k == 'cust':
        return f'{CV[raw]}({x}.i() as {raw})'
    if k == 'sum':
        return f'Sum({x}.i() as u32)'
    if k == 'bool':
        return f'{x}.i() != 0'
    if k == 'opt':
        return f'(match {x}.i() {{ 0 => None, n => Some(n as {raw}) }})'
    if k in ('scale', 'plus1'):
        return f"{x}.f() as {f['out']}"
    if k == 'widen':
        return f"{x}.i() as {f['out']}"
    if raw == 'bytes':
        return f'{x}.a()'
    if raw in ('f32', 'f64'):
        return f'{x}.f() as {raw}'
    return f'{x}.i() as {raw}'


def observers(g):
    o = []
    for e in g['enums']:
        n = e['name']
        rest = [v for v in range(256) if v not in [x[1] for x in e['variants']]] if e['reserved'] else []
        allv = e['variants'] + [(f'Reserved{v}', v) for v in rest]
        o.append(f'impl V for {n} {{ fn v(self) -> Val {{ Val::E(std::format!("{{:?}}", self), self as u8) }} }}')
        o.append(f'impl Default for {n} {{ fn default() -> Self {{ {n}::{dict((v, k) for k, v in e["variants"])[e["default"]]} }} }}')
        o.append(f'#[allow(unreachable_patterns)] fn mk_{n}(x: u8) -> {n} {{ match x {{ ' + ', '.join(f'{v} => {n}::{k}' for k, v in allv) + ', _ => panic!("harness: no such value") } }')
        o.append(f'fn consts_{n}() -> Vec<(&\'static str, Val)> {{ Vec::from([' + ', '.join(f'("{k}", {n}::{k}.v())' for k, v in allv) + ']) }')
    o.append('pub const ENUMS: &[En] = &[')
    for e in g['enums']:
        n = e['name']
        fr = f'Some(|x| {n}::from(x).v())' if 'from' in e['opts'] else 'None'
        un = f'Some(|x| {n}::from_unchecked(x).v())' if 'from_unchecked' in e['opts'] else 'None'
        iv = f'Some(|x| {n}::is_valid(x))' if 'from_unchecked' in e['opts'] else 'None'
        rw = f'Some(|x| mk_{n}(x).into_raw())' if 'into_raw' in e['opts'] else 'None'
        o.append(f'    En {{ name: "{n}", from: {fr}, from_unchecked: {un}, is_valid: {iv}, consts: consts_{n}, raw: {rw}, ser: |x| ser(&mk_{n}(x)) }},')
    o.append('];')
    o.append('pub const FLAGS: &[Fl] = &[')
    for e in g['flags']:
        n, t = e['name'], e['ty']
        o.append(f'    Fl {{ name: "{n}", from: ' + (f'Some(|x| {n}::from(x as {t}).bits() as u32)' if 'from' in e['opts'] else 'None') + ', raw: ' + (f'Some(|x| {n}::from_bits_retain(x as {t}).into_raw() as u32)' if 'into_raw' in e['opts'] else 'None')
                 + f', all: {n}::all().bits() as u32, consts: || Vec::from([' + ', '.join(f'("{c}", {n}::{c}.bits() as u32)' for c in [k for k, b in e['consts']] + [f'RESERVED{b}' for b in range(SIZES[t] * 8) if b not in [x[1] for x in e['consts']]])
                 + f']), ser: |x| ser(&{n}::from_bits_retain(x as {t})) }},')
    o.append('];')
    for e in g['flags']:
        o.append(f'impl V for {e["name"]} {{ fn v(self) -> Val {{ Val::I(self.bits() as i128) }} }}')
    pk = []
    for p in g['packets']:
        n = p['name']
        rv = sd = dy = 'None'
        if p['mode'] in ('recv', 'both'):
            gets = []
            for f in p['fields']:
                gets.append(f'("{f["get"]}", r.{f["get"]}().v())')
                if f['hasraw']:
                    gets.append(f'("{f["get"]}_raw", r.{f["get"]}_raw().v())')
            dbg = [f'("{f["name"]}", std::format!("{{:?}}", r.{f["get"]}()))' for f in p['fields']]
            sers = [(f'("{f["name"]}", ser_iter(r.{f["get"]}()))' if f['conv']['k'] == 'iter' else f'("{f["name"]}", ser(&r.{f["get"]}()))') for f in p['fields']]
            o.append(f'fn get_{n}(b: &[u8]) -> Vec<(&\'static str, Val)> {{ let r = {n}Ref(b); let _ = &r; Vec::from([{", ".join(gets)}]) }}')
            o.append(f'fn dbg_{n}(b: &[u8]) -> (String, Vec<(&\'static str, String)>) {{ let r = {n}Ref(b); (std::format!("{{:?}}", r), Vec::from([{", ".join(dbg)}])) }}')
            o.append(f'fn ser_{n}(b: &[u8]) -> (Ser, Vec<(&\'static str, Ser)>) {{ let r = {n}Ref(b); (ser(&r), Vec::from([{", ".join(sers)}])) }}')
            rv = f'Some(Recv {{ validate: |b| {n}Ref::validate(b), get: get_{n}, bytes: |b| {n}Ref(b).as_bytes().to_vec(), debug: dbg_{n}, ser: ser_{n} }})'
        if p['mode'] in ('both', 'send'):
            o.append(f'fn mk_{n}(i: &[In]) -> {n}Builder {{ let _ = i; {n}Builder {{ ' + ', '.join(f'{f["get"]}: {input_expr(f, k)}' for k, f in enumerate(p['fields'])) + ' } }')
            df = f'Some(|| {n}Builder::default().into_packet_bytes().to_vec())' if p['default'] else 'None'
            sd = f'Some(Fixed {{ len: {n}Builder::PACKET_LEN, bytes: |i| mk_{n}(i).into_packet_bytes().to_vec(), from: |i| <[u8; {p["size"] + 8}]>::from(mk_{n}(i)).to_vec(), create: |i, l| mk_{n}(i).create_packet(l).is_ok(), default: {df} }})'
        if p['mode'] == 'dynamic':
            mk = f'let items = i[{len(p["fields"]) - 1}].l(); let b = {n}Builder {{ ' + ', '.join(f'{f["get"]}: {input_expr(f, k)}' for k, f in enumerate(p['fields'])) + ' };'
            df = f'Some(|| {n}Builder::default().into_packet_vec())' if p['default'] else 'None'
            dy = f'Some(Dynamic {{ vec: |i| {{ {mk} b.into_packet_vec() }}, extend: |i, mut out| {{ {mk} b.extend_to(&mut out); out }}, default: {df} }})'
        pk.append(f'    Pk {{ name: "{n}", class: {n}::CLASS, id: {n}::ID, fixed: {n}::FIXED_PAYLOAD_LEN, max: {n}::MAX_PAYLOAD_LEN, recv: {rv}, send: {sd}, dynamic: {dy} }},')
    o.append('pub const PACKETS: &[Pk] = &[')
    o += pk
    o.append('];')
    e = g['dispatch']['enum']
    o.append(f'fn parse(c: u8, i: u8, b: &[u8]) -> Result<Hit, ParserError> {{ let p = match_packet(c, i, b)?; let (v, bytes, inner) = match &p {{')
    for n in g['dispatch']['order']:
        o.append(f'    {e}::{n}(x) => ("{n}", x.as_bytes().to_vec(), std::format!("{{:?}}", x)),')
    o.append(f'    {e}::Unknown(x) => ("", x.payload.to_vec(), std::format!("{{:?}}", x)),')
    o.append(' }; Ok(Hit { variant: v.into(), pair: p.class_and_msg_id(), bytes, debug: std::format!("{:?}", p), inner_debug: inner, ser: ser(&p) }) }')
    o.append('pub const GROUP: Gr = Gr { packets: PACKETS, enums: ENUMS, flags: FLAGS, max: MAX_PAYLOAD_LEN, parse };')
    return '\n'.join('    ' + x for x in o) + '\n'


def render_group(g):
    items = [(e['name'], render_enum(e)) for e in g['enums']] + [(e['name'], render_flags(e)) for e in g['flags']] + [(p['name'], render_packet(p)) for p in g['packets']] + [('dispatch', render_dispatch(g))]
    return f"pub mod {g['name']} {{\n    use super::*;\n" + '\n'.join(f'//@ description {g["name"]} {n}\n{t}' for n, t in items) + f'//@ observers {g["name"]}\n' + observers(g) + '}\n'


def prelude():
    return open(os.path.join(HERE, 'desc', 'prelude.rs')).read()


def source(groups):
    return '//@ prelude\n' + prelude() + '\n' + '\n'.join(render_group(g) for g in groups) + '\npub const GROUPS: &[Gr] = &[' + ', '.join(g['name'] + '::GROUP' for g in groups) + '];\n'


def model(groups):
    keep = ('name', 'get', 'size', 'raw', 'off', 'conv', 'enc', 'fail', 'valid', 'sizefn', 'hasraw')
    return {'groups': [{'enums': [{k: e[k] for k in ('name', 'kind', 'variants', 'opts', 'reserved', 'default')} for e in g['enums']],
                        'flags': [{'name': e['name'], 'bits': SIZES[e['ty']] * 8, 'consts': e['consts'], 'opts': e['opts']} for e in g['flags']],
                        'packets': [{**{k: p[k] for k in ('name', 'mode', 'class', 'id', 'size', 'fixed', 'max', 'default')}, 'text': render_packet(p), 'fields': [{k: f.get(k) for k in keep} for f in p['fields']]} for p in g['packets']],
                        'order': g['dispatch']['order'], 'union': g['dispatch']['enum']} for g in groups]}


def where(text, line):
    """What a line of the generated source belongs to."""
    lines = text.split('\n')
    for i in range(min(line, len(lines)) - 1, -1, -1):
        if lines[i].startswith('//@ '):
            return lines[i][4:].split(' ')
    return ['prelude']


def write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path + '.tmp', 'w') as f:
            f.write(text)
        os.replace(path + '.tmp', path)


if __name__ == '__main__':
    import sys
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    gen = Gen(seed)
    gs = [gen.group(k) for k in range(n)]
    write(out + '/gen.rs', source(gs))
    write(out + '/model.json', json.dumps(model(gs)))
