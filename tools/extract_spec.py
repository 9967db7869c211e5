#!/usr/bin/env python3
"""One-off: derived the first version of spec/packets.json and spec/cfgval.json from the source text.
The JSON files are the frozen specification (reviewed by hand, corrected where the source was wrong);
no check runs this script."""
import re, json, sys
src = open(sys.argv[1] + '/ublox/src/ubx_packets/packets.rs').read()
src = src[:src.index('define_recv_packets!(\n')] + src[src.index('define_recv_packets!(\n'):]
size = dict(u8=1,i8=1,u16=2,i16=2,u32=4,i32=4,u64=8,f32=4,f64=8)
packets = []
pat = re.compile(r'#\[ubx_packet_(recv_send|recv|send)\]\n#\[ubx\((.*?)\)\](.*?)\n(?:#\[derive\(Debug\)\]\n)?(?:pub )?struct (\w+)(<\'a>)? \{(.*?)\n?\}\n', re.S)
for m in pat.finditer(src):
    kind, hdr, cmt, name, lt, body = m.groups()
    hdr = re.sub(r'//.*', '', hdr)
    h = dict(re.findall(r'(\w+)\s*=\s*("?[\w]+"?)', hdr))
    p = dict(name=name, kind=kind, cls=int(h['class'],0), id=int(h['id'],0))
    if 'fixed_payload_len' in h: p['fixed'] = int(h['fixed_payload_len'],0)
    if 'max_payload_len' in h: p['max'] = int(h['max_payload_len'],0)
    if 'flags' in h: p['default_builder'] = True
    off = 0; fields = []
    b = re.sub(r'//.*', '', body)
    for fm in re.finditer(r'(?:#\[ubx\((.*?)\)\]\s*)?(?:pub )?(\w+):\s*([^,]+?),', b, re.S):
        attr, fn, ty = fm.groups()
        f = dict(name=fn, ty=ty.strip())
        if attr:
            for part in re.split(r',\s*(?![^<(]*[>)])', attr):
                part = part.strip()
                if not part: continue
                if '=' in part:
                    k, v = [x.strip() for x in part.split('=',1)]
                    f[k] = v
                else: f[part] = True
        am = re.match(r'\[u8; (\d+)\]', f['ty'])
        sz = int(am[1]) if am else size.get(f['ty'])
        if sz == 0 or sz is None: f['off'] = off; f['size'] = None
        else: f['off'] = off; f['size'] = sz; off += sz
        fields.append(f)
    p['fields'] = fields; p['min'] = off
    if 'fixed' in p: assert off == p['fixed'], (name, off, p['fixed'])
    packets.append(p)
order = re.search(r'_ = UbxUnknownPacketRef,(.*?)\}', src, re.S)[1]
order = [x.strip() for x in order.split(',') if x.strip()]
enums = []
for m in re.finditer(r'#\[ubx\((from|from_unchecked)?,?\s*(into_raw)?,?\s*(rest_\w+)\)\]\n(?:#\[[^\n]*\]\n)*(?:pub )?enum (\w+) \{(.*?)\n\}', src, re.S):
    body = re.sub(r'//.*', '', m[5])
    e = dict(name=m[4], from_fn=m[1], into=bool(m[2]), rest=m[3], default=None, variants=[])
    for v in re.finditer(r'(#\[default\]\s*)?(\w+)\s*=\s*(\w+)', body):
        if v[1]: e['default'] = v[2]
        e['variants'].append([v[2], int(v[3],0)])
    enums.append(e)
flags = []
for m in re.finditer(r'#\[ubx\(([\w, ]*)\)\]\nbitflags! \{(.*?)\n\}', src, re.S):
    body = re.sub(r'//.*', '', m[2])
    s = re.search(r'pub struct (\w+)\s*:\s*(\w+)', body)
    der = re.search(r'derive\((.*?)\)', body)
    flags.append(dict(name=s[1], ty=s[2], attrs=m[1], derives=der[1] if der else '',
        consts=[[c[0], int(c[1],0)] for c in re.findall(r'const (\w+)\s*=\s*(\w+)', body)]))
json.dump(dict(order=order, packets=packets, enums=enums, bitflags=flags), open(sys.argv[2]+'/packets.json','w'), indent=1)
c = open(sys.argv[1] + '/ublox/src/ubx_packets/cfg_val.rs').read()
L = re.findall(r'^\s*([A-Z][A-Za-z0-9]*),\s*(0x[0-9a-fA-F]+),\s*([A-Za-z0-9]+),',c,re.M)
json.dump([dict(name=n,key=int(k,16),ty=t) for n,k,t in L], open(sys.argv[2]+'/cfgval.json','w'), indent=0)
print(len(packets), len(order), set(order)-{p['name'] for p in packets}, len(enums), len(flags), len(L))
