#!/usr/bin/env python3
"""spec/*.json -> harness/src/gen_spec.rs, gen_obs.rs, gen_build.rs, gen_cfg.rs (all committed)."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, '..'); OUT = os.path.join(V, 'harness/src')
D = json.load(open(os.path.join(V, 'spec/packets.json'))); C = json.load(open(os.path.join(V, 'spec/cfgval.json')))
ENUMS = {e['name']: e for e in D['enums']}; FLAGS = {e['name']: e for e in D['bitflags']}
PK = {p['name']: p for p in D['packets']}
snake = lambda s: re.sub(r'(?<!^)([A-Z])', r'_\1', s).lower()
TY = {'u8':'U8','i8':'I8','u16':'U16','i16':'I16','u32':'U32','i32':'I32','u64':'U64','f32':'F32','f64':'F64'}
EI = {e['name']: i for i, e in enumerate(D['enums'])}; FI = {e['name']: i for i, e in enumerate(D['bitflags'])}
def ty(f):
    m = re.match(r'\[u8; (\d+)\]', f['ty'])
    if m: return f'Ty::Arr({m[1]})' if m[1] != '0' else 'Ty::Var'
    return 'Ty::' + TY[f['ty']] if f['ty'] in TY else 'Ty::Var'
def conv(f):
    m = f.get('map_type')
    if m is None: return 'Conv::Plain'
    if m in ('f64', 'f32'):
        s = float(f['scale']) if 'scale' in f else 1.0
        return f'Conv::Scaled {{ f32: {"true" if m=="f32" else "false"}, scale: {s!r} }}'
    if m in EI: return f'Conv::Enum({EI[m]})'
    if m in FI: return f'Conv::Flags({FI[m]})'
    return f'Conv::Custom({json.dumps(m)})'
getter = lambda f: f.get('alias', f['name'])
b = lambda x: 'true' if x else 'false'
hdr = '// Generated by tools/gen.py from spec/*.json; do not edit.\n'
o = [hdr, 'use crate::spec::*;\n\npub static ENUMS: &[EnumSpec] = &[\n']
for e in D['enums']:
    o.append(f'    EnumSpec {{ name: "{e["name"]}", open: {b(e["rest"]=="rest_reserved")}, default: {json.dumps(e["default"] or "")}, variants: &[{", ".join(f"({json.dumps(n)}, {v})" for n,v in e["variants"])}] }},\n')
o.append('];\n\npub static FLAGS: &[FlagsSpec] = &[\n')
for e in D['bitflags']:
    o.append(f'    FlagsSpec {{ name: "{e["name"]}", bits: {int(e["ty"][1:])}, consts: &[{", ".join(f"({json.dumps(n)}, {v:#x})" for n,v in e["consts"])}] }},\n')
o.append('];\n\npub static PACKETS: &[PacketSpec] = &[\n')
for p in D['packets']:
    o.append(f'    PacketSpec {{ name: "{p["name"]}", class: {p["cls"]:#x}, id: {p["id"]:#x}, fixed: {"Some(%d)"%p["fixed"] if "fixed" in p else "None"}, max: {p.get("max", p.get("fixed"))}, min: {p["min"]}, recv: {b("recv" in p["kind"])}, send: {b("send" in p["kind"])}, default_builder: {b(p.get("default_builder") and "send" in p["kind"])}, fields: &[\n')
    for f in p['fields']:
        raw = f.get('map_type') is not None and f['size'] is not None
        o.append(f'        Field {{ name: "{f["name"]}", getter: "{getter(f)}", raw_getter: "{getter(f)+"_raw" if raw else ""}", ty: {ty(f)}, off: {f["off"]}, size: {f["size"] or 0}, conv: {conv(f)}, checked: {b(f.get("may_fail"))} }},\n')
    o.append('    ] },\n')
o.append('];\n\n/// Dispatch order (first match wins).\npub static ORDER: &[&str] = &[' + ', '.join(f'"{x}"' for x in D['order']) + '];\n')
open(f'{OUT}/gen_spec.rs', 'w').write(''.join(o))

# observers
o = [hdr, '#![allow(clippy::all)]\nuse crate::obs::*;\nuse crate::{enumv, flagv, get};\nuse ublox::*;\n\n']
def getcode(f):
    g = getter(f); m = f.get('map_type'); s = f'x.{g}()'
    if m is None or m in ('f64','f32','&str','Option<&str>','Option<u32>'):
        if f['ty'].startswith('[u8') or True: return f'get!(o, "{g}", {s}.tv());'
    if m in ENUMS: return f'get!(o, "{g}", enumv!({s}));'
    if m in FLAGS: return f'get!(o, "{g}", flagv!({s}));'
    return f'get!(o, "{g}", {snake(m)}({s}));'
recv = [p for p in D['packets'] if 'recv' in p['kind']]
for p in recv:
    n = p['name']
    o.append(f'pub fn obs_{snake(n)}(x: &{n}Ref) -> Vec<(&\'static str, Val)> {{\n    let mut o = Vec::with_capacity({len(p["fields"])*2});\n')
    for f in p['fields']:
        if f.get('map_type') is not None and f['size'] is not None:
            o.append(f'    get!(o, "{getter(f)}_raw", x.{getter(f)}_raw().tv());\n')
        o.append('    ' + getcode(f) + '\n')
    o.append('    o\n}\n\n')
o.append('pub fn observe(p: &PacketRef) -> Observed {\n    #[allow(unreachable_patterns)]\n    match p {\n')
for n in D['order']:
    o.append(f'        PacketRef::{n}(x) => Observed {{ kind: "{n}", bytes: x.as_bytes().to_vec(), vals: obs_{snake(n)}(x) }},\n')
o.append('        PacketRef::Unknown(x) => Observed { kind: "Unknown", bytes: x.payload.to_vec(), vals: vec![("class", x.class.tv()), ("msg_id", x.msg_id.tv())] },\n        _ => Observed { kind: "?", bytes: vec![], vals: vec![] },\n    }\n}\n\n')
o.append('pub fn kind_of(p: &PacketRef) -> &\'static str {\n    #[allow(unreachable_patterns)]\n    match p {\n')
for n in D['order']: o.append(f'        PacketRef::{n}(_) => "{n}",\n')
o.append('        PacketRef::Unknown(_) => "Unknown",\n        _ => "?",\n    }\n}\n\n')
o.append('pub fn payload_of<\'a>(p: &\'a PacketRef) -> &\'a [u8] {\n    #[allow(unreachable_patterns)]\n    match p {\n')
for n in D['order']: o.append(f'        PacketRef::{n}(x) => x.as_bytes(),\n')
o.append('        PacketRef::Unknown(x) => x.payload,\n        _ => &[],\n    }\n}\n\n')
o.append('/// Serializes the inner packet (not through the envelope).\n#[cfg(feature = "serde")]\npub fn inner_json(p: &PacketRef) -> Result<String, serde_json::Error> {\n    #[allow(unreachable_patterns)]\n    match p {\n')
for n in D['order']: o.append(f'        PacketRef::{n}(x) => serde_json::to_string(x),\n')
o.append('        PacketRef::Unknown(x) => serde_json::to_string(x),\n        _ => Ok(String::new()),\n    }\n}\n\n')
# debug text as it follows from the accessors
def dbgexpr(f):
    e = f'x.{getter(f)}()'; m = f.get('map_type')
    return f'crate::obs::dbg_{snake(m)}({e})' if m in ('NavSatSvFlags', 'FixStatusInfo') else e
for p in recv:
    n = p['name']
    o.append(f'fn dbg_{snake(n)}(x: &{n}Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {{\n    f.debug_struct("{n}")' + ''.join(f'\n        .field("{f["name"]}", &{dbgexpr(f)})' for f in p['fields']) + '\n        .finish()\n}\n\n')
o.append('pub struct DebugOf<\'a, \'b>(pub &\'a PacketRef<\'b>);\nimpl std::fmt::Debug for DebugOf<\'_, \'_> {\n    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {\n        #[allow(unreachable_patterns)]\n        match self.0 {\n')
for n in D['order']: o.append(f'            PacketRef::{n}(x) => f.debug_tuple("{n}").field(&Of(x, dbg_{snake(n)})).finish(),\n')
o.append('            PacketRef::Unknown(x) => f.debug_tuple("Unknown").field(&Of(x, |x, f| f.debug_struct("UbxUnknownPacketRef").field("payload", &x.payload).field("class", &x.class).field("msg_id", &x.msg_id).finish())).finish(),\n            _ => Ok(()),\n        }\n    }\n}\npub struct Of<\'a, T>(pub &\'a T, pub fn(&T, &mut std::fmt::Formatter) -> std::fmt::Result);\nimpl<T> std::fmt::Debug for Of<\'_, T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { (self.1)(self.0, f) } }\n/// Debug text of the packet without the envelope, actual and expected.\npub fn inner_debug(p: &PacketRef) -> (String, String) {\n    #[allow(unreachable_patterns)]\n    match p {\n')
for n in D['order']: o.append(f'        PacketRef::{n}(x) => (format!("{{:?}}", x), format!("{{:?}}", Of(x, dbg_{snake(n)}))),\n')
o.append('        _ => Default::default(),\n    }\n}\n\n')
for n in ('NavSatSvInfo', 'RxmRawxInfo'): o.append(f'pub fn record_debug_{snake(n)}(x: &{n}Ref) -> (String, String) {{ (format!("{{:?}}", x), format!("{{:?}}", Of(x, dbg_{snake(n)}))) }}\n')
o.append('pub struct Meta { pub name: &\'static str, pub class: u8, pub id: u8, pub fixed: Option<u16>, pub max: u16, pub request: [u8; 8] }\n')
o.append('fn meta<T: UbxPacketMeta>(name: &\'static str) -> Meta { Meta { name, class: T::CLASS, id: T::ID, fixed: T::FIXED_PAYLOAD_LEN, max: T::MAX_PAYLOAD_LEN, request: UbxPacketRequest::request_for::<T>().into_packet_bytes() } }\n')
o.append('pub fn metas() -> Vec<Meta> {\n    vec![\n' + ''.join(f'        meta::<{p["name"]}>("{p["name"]}"),\n' for p in D['packets']) + '    ]\n}\n\n')
o.append('/// (flag set, constant, bits) as the crate defines them.\npub fn flag_consts() -> Vec<(&\'static str, &\'static str, u64)> {\n    vec![\n')
for e in D['bitflags']:
    for n, v in e['consts']:
        o.append(f'        ("{e["name"]}", "{n}", {e["name"]}::{n}.bits() as u64),\n')
o.append('    ]\n}\n\n')
def per_meta(fname, sig, body):
    o.append(f'pub fn {fname}{sig} {{\n    match name {{\n' + ''.join(f'        "{p["name"]}" => {body.replace("$T", p["name"])},\n' for p in D['packets']) + '        _ => panic!("harness: no packet {}", name),\n    }\n}\n\n')
per_meta('is_ack', '(name: &str, a: &AckAckRef) -> bool', 'a.is_ack_for::<$T>()')
per_meta('is_nak', '(name: &str, a: &AckNakRef) -> bool', 'a.is_nak_for::<$T>()')
per_meta('rate_single', '(name: &str, rate: u8) -> Vec<u8>', 'CfgMsgSinglePortBuilder::set_rate_for::<$T>(rate).into_packet_bytes().to_vec()')
per_meta('rate_all', '(name: &str, rates: [u8; 6]) -> Vec<u8>', 'CfgMsgAllPortsBuilder::set_rate_for::<$T>(rates).into_packet_bytes().to_vec()')
open(f'{OUT}/gen_obs.rs', 'w').write(''.join(o))

# builders
o = [hdr, '#![allow(clippy::all)]\nuse crate::build::*;\nuse ublox::*;\n\n']
send = [p for p in D['packets'] if 'send' in p['kind'] and p['name'] != 'CfgValSet']
used_enums = {f['map_type'] for p in send for f in p['fields'] if f.get('map_type') in ENUMS}
for n in sorted(used_enums | {'CfgItfmAntennaSettings'}):
    e = ENUMS[n]
    o.append(f'pub fn mk_{snake(n)}(v: i128) -> {n} {{\n    match v {{\n' + ''.join(f'        {x[1]} => {n}::{x[0]},\n' for x in e['variants']) + '        _ => panic!("harness: bad enum value"),\n    }\n}\n')
def inp(f, k):
    m = f.get('map_type'); v = f'i[{k}]'
    if m is None:
        a = re.match(r'\[u8; (\d+)\]', f['ty'])
        return f'{v}.arr::<{a[1]}>()' if a else f'{v}.int() as {f["ty"]}'
    if m in ('f64','f32'): return f'{v}.flt() as {m}'
    if m in ENUMS: return f'mk_{snake(m)}({v}.int())'
    if m in FLAGS: return f'{m}::from_bits_truncate({v}.int() as {FLAGS[m]["ty"]})'
    return f'mk_{snake(m)}(&{v})'
for p in send:
    n = p['name']
    body = ', '.join(f'{getter(f)}: {inp(f,k)}' for k, f in enumerate(p['fields']))
    o.append(f'#[allow(unused_variables)]\nfn mkb_{snake(n)}(i: &[Inp]) -> {n}Builder {{\n    {n}Builder {{ {body} }}\n}}\n')
o.append('/// (explicit conversion, `From` conversion, advertised packet length)\npub fn bytes(name: &str, i: &[Inp]) -> (Vec<u8>, Vec<u8>, usize) {\n    match name {\n')
for p in send:
    n = p['name']
    o.append(f'        "{n}" => (mkb_{snake(n)}(i).into_packet_bytes().to_vec(), {{ let a: [u8; {n}Builder::PACKET_LEN] = mkb_{snake(n)}(i).into(); a.to_vec() }}, {n}Builder::PACKET_LEN),\n')
o.append('        _ => panic!("harness: no builder {}", name),\n    }\n}\n\npub fn create<W: MemWriter>(name: &str, i: &[Inp], w: &mut W) -> Result<(), MemWriterError<W::Error>> {\n    match name {\n')
for p in send: o.append(f'        "{p["name"]}" => mkb_{snake(p["name"])}(i).create_packet(w),\n')
o.append('        _ => panic!("harness: no builder {}", name),\n    }\n}\n\npub fn default_bytes(name: &str) -> Option<Vec<u8>> {\n    Some(match name {\n')
for p in send:
    if p.get('default_builder'): o.append(f'        "{p["name"]}" => {p["name"]}Builder::default().into_packet_bytes().to_vec(),\n')
o.append('        _ => return None,\n    })\n}\n\n/// Rebuilds a received packet from its own accessors.\npub fn rebuild(p: &PacketRef) -> Option<Vec<u8>> {\n    Some(match p {\n')
for p in send:
    if 'recv' in p['kind'] and p['name'] in D['order']:
        n = p['name']
        o.append(f'        PacketRef::{n}(x) => {n}Builder {{ ' + ', '.join(f'{getter(f)}: x.{getter(f)}()' for f in p['fields']) + ' }.into_packet_bytes().to_vec(),\n')
o.append('        _ => return None,\n    })\n}\n')
open(f'{OUT}/gen_build.rs', 'w').write(''.join(o))

# configuration values
o = [hdr, '#![allow(clippy::all)]\nuse crate::cfgv::*;\nuse ublox::cfg_val::*;\n\npub static KEYS: &[Key] = &[\n']
for c in C: o.append(f'    Key {{ name: "{c["name"]}", key: {c["key"]:#x}, ty: VTy::{c["ty"][0].upper()+c["ty"][1:]} }},\n')
o.append('];\n\npub fn make(idx: usize, v: u64) -> CfgVal {\n    match idx {\n')
for i, c in enumerate(C): o.append(f'        {i} => CfgVal::{c["name"]}(mk_{c["ty"].lower()}(v)),\n')
o.append('        _ => panic!("harness: key index"),\n    }\n}\n\n/// (key index, raw value) of a decoded item\npub fn unmake(c: &CfgVal) -> (usize, u64) {\n    #[allow(unreachable_patterns)]\n    match c {\n')
for i, c in enumerate(C): o.append(f'        CfgVal::{c["name"]}(v) => ({i}, un_{c["ty"].lower()}(*v)),\n')
o.append('        _ => (usize::MAX, 0),\n    }\n}\n')
open(f'{OUT}/gen_cfg.rs', 'w').write(''.join(o))
