//! C16: serialized packets carry every field once, with the accessor value.
use ublox::*;
use vh::frames::*;
use vh::model::*;
use vh::obs::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

/// JSON as written: numbers as text, objects with every entry in order (duplicates kept).
#[derive(Debug, Clone, PartialEq)]
enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) { self.i += 1 } }
    fn eat(&mut self, c: u8) -> Result<(), String> { self.ws(); if self.s.get(self.i) == Some(&c) { self.i += 1; Ok(()) } else { Err(format!("expected '{}' at {}", c as char, self.i)) } }
    fn lit(&mut self, t: &str) -> Result<(), String> { if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); Ok(()) } else { Err(format!("bad literal at {}", self.i)) } }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut v: Vec<u8> = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(v).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = *self.s.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        b'n' => v.push(b'\n'), b't' => v.push(b'\t'), b'r' => v.push(b'\r'), b'b' => v.push(8), b'f' => v.push(12), b'"' | b'\\' | b'/' => v.push(e),
                        b'u' => {
                            let h = |p: &Self, i: usize| p.s.get(i..i + 4).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| u32::from_str_radix(x, 16).ok()).ok_or("bad \\u");
                            let mut u = h(self, self.i)?;
                            self.i += 4;
                            if (0xd800..0xdc00).contains(&u) { self.lit("\\u")?; let l = h(self, self.i)?; self.i += 4; u = 0x10000 + ((u - 0xd800) << 10) + l.wrapping_sub(0xdc00); }
                            let mut b = [0; 4];
                            v.extend_from_slice(char::from_u32(u).ok_or("lone surrogate")?.encode_utf8(&mut b).as_bytes());
                        },
                        _ => return Err(format!("bad escape at {}", self.i)),
                    }
                },
                0..=0x1f => return Err(format!("control character in a string at {}", self.i)),
                _ => v.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        Ok(match *self.s.get(self.i).ok_or("end of text")? {
            b'n' => { self.lit("null")?; J::Null }, b't' => { self.lit("true")?; J::Bool(true) }, b'f' => { self.lit("false")?; J::Bool(false) },
            b'"' => J::Str(self.string()?),
            b'[' => { self.i += 1; let mut v = vec![]; self.ws(); if self.s.get(self.i) == Some(&b']') { self.i += 1; return Ok(J::Arr(v)); } loop { v.push(self.value()?); self.ws(); match self.s.get(self.i) { Some(b',') => self.i += 1, Some(b']') => { self.i += 1; return Ok(J::Arr(v)) }, _ => return Err(format!("bad array at {}", self.i)) } } },
            b'{' => { self.i += 1; let mut v = vec![]; self.ws(); if self.s.get(self.i) == Some(&b'}') { self.i += 1; return Ok(J::Obj(v)); } loop { self.ws(); let k = self.string()?; self.eat(b':')?; v.push((k, self.value()?)); self.ws(); match self.s.get(self.i) { Some(b',') => self.i += 1, Some(b'}') => { self.i += 1; return Ok(J::Obj(v)) }, _ => return Err(format!("bad object at {}", self.i)) } } },
            b'-' | b'0'..=b'9' => { let a = self.i; while self.i < self.s.len() && b"+-.eE0123456789".contains(&self.s[self.i]) { self.i += 1 } J::Num(String::from_utf8(self.s[a..self.i].to_vec()).unwrap()) },
            c => return Err(format!("unexpected byte {:#x} at {}", c, self.i)),
        })
    }
}
fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != s.len() { return Err(format!("text behind the value at {}", p.i)); }
    Ok(v)
}
fn is_int(j: &J, i: i128) -> bool { matches!(j, J::Num(t) if t.parse::<i128>() == Ok(i)) }
/// The accessor's value as JSON: does it match?
fn val(v: &Val, j: &J) -> bool {
    match (v, j) {
        (Val::Int(i), j) => is_int(j, *i),
        (Val::Enum(_, i), j) => is_int(j, *i),
        (Val::Flags(i), j) => is_int(j, *i as i128),
        (Val::F64(x), J::Num(t)) => t.parse::<f64>() == Ok(*x),
        (Val::F32(x), J::Num(t)) => t.parse::<f32>() == Ok(*x) || t.parse::<f64>().map(|y| y as f32 == *x).unwrap_or(false),
        // JSON has no non-finite numbers
        (Val::F64(x), J::Null) => !x.is_finite(),
        (Val::F32(x), J::Null) => !x.is_finite(),
        (Val::Bool(b), J::Bool(c)) => b == c,
        (Val::Bytes(b), J::Arr(a)) => a.len() == b.len() && a.iter().zip(b).all(|(j, b)| is_int(j, *b as i128)),
        (Val::Str(a), J::Str(b)) => a == b,
        (Val::None, J::Null) => true,
        _ => false,
    }
}
/// What one field must look like, from its accessor's value (and its own bytes for packed words).
fn field(f: &Field, v: &Val, own: &[u8], j: &J) -> bool {
    match f.conv {
        Conv::Custom(c) => match (c, j) {
            ("UartMode", J::Obj(o)) => match (v, uart_mode_json(o)) { (Val::Str(s), Some(t)) => *s == t, _ => false },
            ("CfgItfmConfig", J::Obj(o)) => { let w = le(own); entries(o, &[("enable", Val::Bool(w >> 31 == 1)), ("bb_threshold", Val::Int((w & 15) as i128)), ("cw_threshold", Val::Int((w >> 4 & 31) as i128)), ("algorithm_bits", Val::Int((w >> 9 & 0x3fffff) as i128))]) },
            ("CfgItfmConfig2", J::Obj(o)) => { let w = le(own); let a = (w >> 12 & 3) as i128; entries(o, &[("general", Val::Int((w & 0xfff) as i128)), ("antenna", Val::Int(if a == 3 { 0 } else { a })), ("scan_aux_bands", Val::Bool(w >> 14 & 1 == 1))]) },
            ("FixStatusInfo" | "NavSatSvFlags" | "TimTpFlags" | "TimTpRefInfo" | "TimTm2Flags", j) => is_int(j, le(own) as i128),
            ("NavSatIter", J::Arr(a)) => records("NavSatSvInfo", v, a),
            ("RxmRawxInfoIter", J::Arr(a)) => records("RxmRawxInfo", v, a),
            ("EsfMeasDataIter" | "EsfRawDataIter", J::Arr(a)) => match v { Val::Seq(s) => s.len() == a.len() && s.iter().zip(a).all(|(v, j)| match (v, j) { (Val::Rec(r), J::Obj(o)) => entries(o, r), _ => false }), _ => false },
            ("MonVerExtensionIter" | "DwrdIter", J::Arr(a)) => match v { Val::Seq(s) => s.len() == a.len() && s.iter().zip(a).all(|(v, j)| val(v, j)), _ => false },
            (_, j) => val(v, j),
        },
        _ => val(v, j),
    }
}
fn uart_mode_json(o: &[(String, J)]) -> Option<String> {
    let g = |k: &str| { let mut i = o.iter().filter(|e| e.0 == k); match (i.next(), i.next()) { (Some((_, J::Str(s))), None) => Some(s.clone()), _ => None } };
    if o.len() != 3 { return None; }
    Some(format!("UartMode {{ data_bits: {}, parity: {}, stop_bits: {} }}", g("data_bits")?, g("parity")?, g("stop_bits")?))
}
fn entries(o: &[(String, J)], want: &[(&'static str, Val)]) -> bool {
    o.len() == want.len() && want.iter().all(|(k, v)| { let mut i = o.iter().filter(|e| e.0 == *k); match (i.next(), i.next()) { (Some((_, j)), None) => val(v, j), _ => false } })
}
fn records(sub: &str, v: &Val, a: &[J]) -> bool {
    let p = packet(sub);
    match v {
        Val::Seq(s) => s.len() == a.len() && s.iter().zip(a).all(|(v, j)| match (v, j) {
            (Val::Rec(r), J::Obj(o)) => {
                let own = match r.iter().find(|x| x.0 == "as_bytes") { Some((_, Val::Bytes(b))) => b, _ => return false };
                o.len() == p.fields.len() && p.fields.iter().all(|f| {
                    let mut i = o.iter().filter(|e| e.0 == f.name);
                    match (i.next(), i.next(), r.iter().find(|x| x.0 == f.getter)) { (Some((_, j)), None, Some((_, v))) => field(f, v, &own[f.off..f.off + f.size], j), _ => false }
                })
            },
            _ => false,
        }),
        _ => false,
    }
}
/// Every entry exactly once, nothing else. `head`: class and message id expected in front.
fn object(c: &Case, kind: &str, fields: &[Field], vals: &[(&'static str, Val)], pl: &[u8], o: &[(String, J)], head: Option<(u8, u8)>, text: &str) -> Res {
    let mut left: Vec<&(String, J)> = o.iter().collect();
    if let Some((class, id)) = head {
        for (k, v) in [("class", class), ("msg_id", id)] {
            match left.iter().position(|e| e.0 == k && is_int(&e.1, v as i128)) { Some(i) => { left.remove(i); }, None => return viol(format!("{} serialized without its {}", kind, k), format!("expected {} = {} in {}", k, v, crop(text, 800))) }
        }
    }
    for f in fields {
        let v = match vals.iter().find(|x| x.0 == f.getter) { Some(v) => &v.1, None => panic!("harness: {}.{}", kind, f.getter) };
        let own = if f.size > 0 { &pl[f.off..f.off + f.size] } else { &[][..] };
        match left.iter().position(|e| e.0 == f.name && field(f, v, own, &e.1)) {
            Some(i) => { left.remove(i); },
            None => match left.iter().find(|e| e.0 == f.name) {
                Some(e) => return viol(format!("wrong serialized value of {}.{}", kind, f.name), format!("{:?}, the accessor returns {:?}; payload {}", e.1, v, hex(pl))),
                None => return viol(format!("field {}.{} is missing from the serialized map", kind, f.name), crop(text, 1000)),
            },
        }
        c.count("serialized fields compared", 1);
    }
    if let Some(e) = left.first() { return viol(format!("{} serialized with an extra entry {}", kind, e.0), crop(text, 1000)); }
    // the same name twice in one map
    for (i, e) in o.iter().enumerate() {
        if o[..i].iter().any(|d| d.0 == e.0) { c.known_or(Violation { sig: format!("duplicate key {} in serialized {}", e.0, kind), detail: format!("{}: {}", kind, crop(text, 400)) })?; }
    }
    Ok(())
}
fn check(c: &Case, class: u8, id: u8, pl: &[u8]) -> Res {
    let (o, whole, val_, pretty, inner, cbor) = with_packet(c, class, id, pl, |q| {
        (vh::gen_obs::observe(q), serde_json::to_string(q).map_err(|e| e.to_string()), serde_json::to_value(q).map_err(|e| e.to_string()), serde_json::to_string_pretty(q).map_err(|e| e.to_string()), vh::gen_obs::inner_json(q).map_err(|e| e.to_string()), binary(q))
    })?;
    let fail = |e: String| viol(format!("serialization of {} fails", o.kind), format!("{}; payload {}", e, hex(pl)));
    let whole = match whole { Ok(s) => s, Err(e) => return fail(e) };
    let inner = match inner { Ok(s) => s, Err(e) => return fail(e) };
    let pretty = match pretty { Ok(s) => s, Err(e) => return fail(e) };
    let value = match val_ { Ok(s) => s, Err(e) => return fail(e) };
    let bad = |e: String| viol(format!("serialized {} is not valid JSON", o.kind), format!("{} in {}", e, crop(&whole, 800)));
    let j = match parse(&whole) { Ok(J::Obj(j)) => j, Ok(_) => return viol(format!("serialized {} is not a map", o.kind), crop(&whole, 300)), Err(e) => return bad(e) };
    if o.kind == "Unknown" {
        let e = [("class", Val::Int(class as i128)), ("msg_id", Val::Int(id as i128)), ("payload", Val::Bytes(pl.to_vec()))];
        if !entries(&j, &e) { return viol("wrong serialized unknown packet", format!("{:02x}-{:02x} {} -> {}", class, id, hex(pl), crop(&whole, 800))); }
        c.count("unknown packets", 1);
    } else {
        let p = packet(o.kind);
        object(c, p.name, p.fields, &o.vals, pl, &j, Some((class, id)), &whole)?;
        match parse(&inner) { Ok(J::Obj(i)) => object(c, p.name, p.fields, &o.vals, pl, &i, None, &inner)?, Ok(_) => return viol(format!("serialized {} is not a map", o.kind), crop(&inner, 300)), Err(e) => return bad(e) }
        c.seen("packet types", hash_bytes(p.name.as_bytes()));
    }
    // other ways of serializing agree, and a common JSON reader reads the same
    match parse(&pretty) { Ok(J::Obj(q)) if q == j => {}, x => return viol(format!("pretty serialization of {} differs", o.kind), format!("{:?}", x).chars().take(600).collect::<String>()) }
    match serde_json::from_str::<serde_json::Value>(&whole) { Ok(v) if json_eq(&v, &value) => {}, Ok(v) => return viol(format!("serialized {} does not read back to the same values", o.kind), format!("{} vs {}", crop(&v.to_string(), 500), crop(&value.to_string(), 500))), Err(e) => return bad(e.to_string()) }
    // a binary format that announces how many entries and records follow
    match cbor {
        Ok(b) => if !cbor_eq(&b, &J::Obj(j)) { return viol(format!("{} serialized in a binary format differs from its text", o.kind), format!("{} vs {}", crop(&format!("{:?}", b), 600), crop(&whole, 600))); },
        Err(e) => return viol(format!("{} serialized in a binary format cannot be read", o.kind), format!("{}; payload {}", e, hex(pl))),
    }
    c.count("packets serialized", 1);
    c.distinct(hash_bytes(pl) ^ hash_bytes(o.kind.as_bytes()));
    if c.want_sample() { c.sample(crop(&whole, 300)); }
    Ok(())
}
fn binary(q: &PacketRef) -> Result<ciborium::Value, String> {
    let mut b = vec![];
    ciborium::into_writer(q, &mut b).map_err(|e| format!("writing: {}", e))?;
    let mut rest = &b[..];
    let v = ciborium::from_reader::<ciborium::Value, _>(&mut rest).map_err(|e| format!("reading {}: {}", crop(&hex(&b), 600), e))?;
    if rest.is_empty() { Ok(v) } else { Err(format!("{} bytes behind the end of {}", rest.len(), crop(&hex(&b), 600))) }
}
fn cbor_eq(v: &ciborium::Value, j: &J) -> bool {
    use ciborium::Value as V;
    match (v, j) {
        (V::Null, J::Null) => true,
        (V::Bool(a), J::Bool(b)) => a == b,
        (V::Integer(i), j) => is_int(j, i128::from(*i)),
        (V::Float(f), J::Null) => !f.is_finite(),
        (V::Float(f), J::Num(t)) => t.parse::<f64>() == Ok(*f) || t.parse::<f32>().map(f64::from) == Ok(*f),
        (V::Text(a), J::Str(b)) => a == b,
        (V::Bytes(b), J::Arr(a)) => a.len() == b.len() && a.iter().zip(b).all(|(j, b)| is_int(j, *b as i128)),
        (V::Array(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, j)| cbor_eq(v, j)),
        (V::Map(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, j))| k.as_text() == Some(l) && cbor_eq(v, j)),
        _ => false,
    }
}
/// Equality up to the last digit of floating-point numbers (the reader's own rounding, and f32 widened to f64).
fn json_eq(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => x == y || match (x.as_f64(), y.as_f64()) { (Some(x), Some(y)) => (x - y).abs() <= 1e-6 * x.abs().max(y.abs()) || x as f32 == y as f32, _ => false },
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| json_eq(x, y)),
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| json_eq(v, w)).unwrap_or(false)),
        _ => a == b,
    }
}
fn main() {
    let mut x = Ctx::new("C16");
    x.boost = 5;
    x.assumptions = vec!["serde_json and ciborium (CBOR) as serializers; non-finite floating-point numbers become null in JSON; UART words with reserved encodings are excluded here (recorded finding of C08)".into()];
    let ord: Vec<&'static PacketSpec> = order().into_iter().filter(|p| p.name != "MgaGpsEPH").collect();
    let k = ord.len() as u64;
    let per = x.n(1_200, 60_000);
    x.section("payloads", "every received packet with corner and random payloads; every entry of the written map compared with its accessor", per * k, |c| {
        let p = ord[(c.idx % k) as usize];
        let f = if c.rng.bool() { Fill::Corner } else { Fill::Random };
        let pl = payload(&mut c.rng, p, f);
        check(c, p.class, p.id, &pl)
    });
    let one: Vec<(&'static PacketSpec, usize)> = ord.iter().flat_map(|p| p.fields.iter().filter(|f| f.size == 1).map(move |f| (*p, f.off))).collect();
    let n1 = one.len() as u64;
    x.section("one-byte fields", "every one-byte field with all values (quick: every 8th)", n1 * x.n(32, 256), |c| {
        let (p, o) = one[(c.idx % n1) as usize];
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        pl[o] = if c.thorough { (c.idx / n1) as u8 } else { (c.idx / n1 * 8) as u8 + c.rng.below(8) as u8 };
        // another port number can turn it into a serial port configuration with a reserved encoding
        if p.name != "CfgPrtUart" && dispatch(p.class, p.id, &pl).map(|d| d.name == "CfgPrtUart").unwrap_or(false) { return Ok(()); }
        check(c, p.class, p.id, &pl)
    });
    let n = x.n(8_000, 400_000);
    x.section("unknown packets", "arbitrary class/id and payload, also known pairs with invalid payloads", n, |c| {
        let (class, id) = if c.rng.bool() { (c.rng.u8(), c.rng.u8()) } else { let p = ord[c.rng.below(ord.len())]; (p.class, p.id) };
        let n = match c.rng.below(4) { 0 => 0, 1 => 1, _ => c.rng.below(120) };
        let pl = c.rng.bytes(n);
        if let Some(p) = dispatch(class, id, &pl) { if p.name == "CfgPrtUart" { return Ok(()); } }
        check(c, class, id, &pl)
    });
    x.require("serialized fields compared", 500_000);
    x.require("unknown packets", 2_000);
    x.finish()
}
