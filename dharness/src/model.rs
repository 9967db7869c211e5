//! What a description means, computed from the generator's model of it.
use crate::rng::Rng;
use serde_json::Value;
use ublox::verif::{In, Val};

pub struct Enum { pub name: String, pub variants: Vec<(String, u8)>, pub reserved: bool, pub default: u8 }
impl Enum {
    pub fn name_of(&self, x: u8) -> Option<String> {
        self.variants.iter().find(|v| v.1 == x).map(|v| v.0.clone()).or_else(|| if self.reserved { Some(format!("Reserved{}", x)) } else { None })
    }
    pub fn value_of(&self, n: &str) -> Option<u8> { (0..=255).find(|x| self.name_of(*x).as_deref() == Some(n)) }
}
pub struct Flags { pub name: String, pub bits: u32, pub consts: Vec<(String, u32)> }
impl Flags {
    pub fn bit_of(&self, n: &str) -> Option<u32> {
        self.consts.iter().find(|c| c.0 == n).map(|c| c.1).or_else(|| n.strip_prefix("RESERVED").and_then(|s| s.parse().ok()))
    }
}
pub struct Field { pub name: String, pub get: String, pub size: usize, pub raw: String, pub off: usize, pub conv: Value, pub enc: Value, pub fail: bool, pub valid: Value, pub sizefn: Option<(usize, usize, usize)>, pub hasraw: bool }
impl Field {
    pub fn kind(&self) -> String { format!("{}{}{}", self.raw, match self.conv["k"].as_str() { Some("plain") => "", Some(k) => k, None => "" }, if self.fail { " checked" } else { "" }) }
}
pub struct Packet { pub name: String, pub mode: String, pub class: u8, pub id: u8, pub size: usize, pub fixed: bool, pub max: usize, pub text: String, pub fields: Vec<Field> }
pub struct Group { pub enums: Vec<Enum>, pub flags: Vec<Flags>, pub packets: Vec<Packet>, pub order: Vec<String> }
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict { Ok, Len(usize, usize), Field(Vec<String>), Open }

fn s(v: &Value) -> String { v.as_str().expect("harness: model").to_string() }
fn u(v: &Value) -> usize { v.as_u64().expect("harness: model") as usize }
impl super::World {
    pub fn load(path: &str) -> Self {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("harness: model")).expect("harness: model");
        let groups: Vec<Group> = v["groups"].as_array().unwrap().iter().map(|g| Group {
            enums: g["enums"].as_array().unwrap().iter().map(|e| Enum { name: s(&e["name"]), variants: e["variants"].as_array().unwrap().iter().map(|x| (s(&x[0]), u(&x[1]) as u8)).collect(), reserved: e["reserved"].as_bool().unwrap(), default: u(&e["default"]) as u8 }).collect(),
            flags: g["flags"].as_array().unwrap().iter().map(|e| Flags { name: s(&e["name"]), bits: u(&e["bits"]) as u32, consts: e["consts"].as_array().unwrap().iter().map(|x| (s(&x[0]), u(&x[1]) as u32)).collect() }).collect(),
            packets: g["packets"].as_array().unwrap().iter().map(|p| Packet { name: s(&p["name"]), mode: s(&p["mode"]), class: u(&p["class"]) as u8, id: u(&p["id"]) as u8, size: u(&p["size"]), fixed: p["fixed"].as_bool().unwrap(), max: u(&p["max"]), text: s(&p["text"]),
                fields: p["fields"].as_array().unwrap().iter().map(|f| Field { name: s(&f["name"]), get: s(&f["get"]), size: u(&f["size"]), raw: s(&f["raw"]), off: u(&f["off"]), conv: f["conv"].clone(), enc: f["enc"].clone(), fail: f["fail"].as_bool().unwrap(), valid: f["valid"].clone(),
                    sizefn: f["sizefn"].as_object().map(|o| (u(&o["mul"]), u(&o["mask"]), u(&o["shift"]))), hasraw: f["hasraw"].as_bool().unwrap() }).collect() }).collect(),
            order: g["order"].as_array().unwrap().iter().map(s).collect(),
        }).collect();
        let flat = groups.iter().enumerate().flat_map(|(i, g)| (0..g.packets.len()).map(move |j| (i, j))).collect();
        super::World { groups, flat }
    }
}

fn int(ty: &str, b: &[u8]) -> i128 {
    let mut x: i128 = 0;
    for (i, v) in b.iter().enumerate() { x |= (*v as i128) << (8 * i); }
    if ty.starts_with('i') && b.last().map_or(false, |v| v & 0x80 != 0) { x -= 1i128 << (8 * b.len()); }
    x
}
fn width(ty: &str) -> usize { match ty { "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" | "f32" => 4, "f64" => 8, _ => 0 } }
fn limits(ty: &str) -> (i128, i128) { let w = 8 * width(ty) as u32; if ty.starts_with('i') { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) } }
fn wrap(ty: &str, x: i128) -> i128 { let w = 8 * width(ty) as u32; let m = x & ((1i128 << w) - 1); if ty.starts_with('i') && m >> (w - 1) == 1 { m - (1i128 << w) } else { m } }
fn num(v: &Value) -> f64 { s(v).parse().expect("harness: scale") }
fn total(b: &[u8]) -> i128 { b.iter().enumerate().map(|(i, x)| (i as i128 + 1) * *x as i128).sum() }
fn utf(b: &[u8]) -> Option<String> { String::from_utf8(b.to_vec()).ok() }

impl Packet {
    /// Extent of a field in a payload (None: the payload is too short to say).
    fn extent(&self, f: &Field, pl: &[u8]) -> (usize, usize) {
        if f.size > 0 { return (f.off, f.off + f.size); }
        if f.sizefn.is_none() { return (f.off, pl.len().max(f.off)); }
        let mut o = f.off;
        for g in self.fields.iter().filter(|g| g.sizefn.is_some()) {
            let n = self.count(g, pl);
            if g.name == f.name { return (o, o + n); }
            o += n;
        }
        unreachable!("harness: size function")
    }
    fn count(&self, f: &Field, pl: &[u8]) -> usize {
        let (mul, mask, shift) = f.sizefn.unwrap();
        let c = &self.fields[0];
        ((int(&c.raw, &pl[..c.size]) as usize >> shift) & mask) * mul
    }
    pub fn min(&self, pl: &[u8]) -> usize {
        if pl.len() < self.size { return self.size; }
        self.size + self.fields.iter().filter(|f| f.sizefn.is_some()).map(|f| self.count(f, pl)).sum::<usize>()
    }
    pub fn verdict(&self, g: &Group, pl: &[u8]) -> Verdict {
        if self.fixed && pl.len() != self.size { return Verdict::Len(self.size, self.size); }
        if !self.fixed {
            let m = self.min(pl);
            if pl.len() < m { return Verdict::Len(pl.len() + 1, m); }
            if pl.len() > self.max { return Verdict::Open; }
        }
        let mut bad = vec![];
        for f in self.fields.iter().filter(|f| f.fail) {
            let (a, b) = self.extent(f, pl);
            let x = &pl[a..b];
            let v = || int(&f.raw, x);
            let ok = match f.valid["v"].as_str().expect("harness: rule") {
                "mod5" => v().rem_euclid(5) != 3,
                "mod7" => v().rem_euclid(7) != 2,
                "le3" => (0..=3).contains(&v()),
                "utf8" => utf(x).is_some(),
                "first" => { if f.sizefn.is_some() && x.is_empty() && pl.len() > a { return Verdict::Open; } x.first() != Some(&0xee) },
                "len" => x.len() % u(&f.valid["k"]) == 0,
                "enum" => g.en(&f.valid).name_of(x[0]).is_some(),
                _ => panic!("harness: rule"),
            };
            if !ok { bad.push(f.get.clone()); }
        }
        if bad.is_empty() { Verdict::Ok } else { Verdict::Field(bad) }
    }
    pub fn raw(&self, f: &Field, pl: &[u8]) -> Val {
        let (a, b) = self.extent(f, pl);
        let x = &pl[a..b];
        match f.raw.as_str() {
            "bytes" => Val::B(x.to_vec()),
            "f32" => Val::G(f32::from_le_bytes(x.try_into().unwrap())),
            "f64" => Val::F(f64::from_le_bytes(x.try_into().unwrap())),
            t => Val::I(int(t, x)),
        }
    }
    pub fn decode(&self, g: &Group, f: &Field, pl: &[u8]) -> Val {
        let raw = self.raw(f, pl);
        let i = || if let Val::I(x) = &raw { *x } else { panic!("harness: int") };
        let b = || if let Val::B(x) = &raw { x.clone() } else { panic!("harness: bytes") };
        let t = f.raw.as_str();
        match f.conv["k"].as_str().expect("harness: conv") {
            "plain" => raw,
            "scale" => {
                if f.conv["f"] == "f32" { return Val::G(i() as f32 * num(&f.conv["scale"]) as f32); }
                let x = match &raw { Val::G(x) => *x as f64, Val::I(x) => *x as f64, _ => panic!("harness: scale") };
                Val::F((x + if f.conv["plus1"] == true { 1.0 } else { 0.0 }) * num(&f.conv["scale"]))
            },
            "rawscale" => match raw { Val::G(x) => Val::G(x * num(&f.conv["scale"]) as f32), Val::F(x) => Val::F(x * num(&f.conv["scale"])), _ => panic!("harness: scale") },
            "enum" => Val::E(g.en(&f.conv).name_of(i() as u8).expect("harness: member"), i() as u8),
            "flags" | "widen" => raw,
            "cust" => Val::I(wrap(t, match f.conv["fn"].as_str() { Some("from") => i() ^ 0x35, Some("from_unchecked") => i() ^ 0x6b, Some("from2") => i() + 7, _ => panic!("harness: conv") })),
            "bool" => Val::Nb(i() & 1 == 1),
            "opt" => if i() == 0 { Val::N } else { raw },
            "plus1" => Val::F(i() as f64 + 1.0),
            "str" => Val::S(utf(&b()).unwrap_or("?".into())),
            "optstr" => utf(&b()).map_or(Val::N, Val::S),
            "opt32" => { let b = b(); if b.len() < 4 { Val::N } else { Val::I(int("u32", &b[..4])) } },
            "sum" => Val::I(total(&b()) + u(&f.conv["plus"]) as i128),
            "iter" => {
                let w = u(&f.conv["w"]);
                let mut l = vec![Val::I(u(&f.conv["tag"]) as i128)];
                l.extend(b().chunks_exact(w).map(|c| Val::I(c.iter().fold(0i128, |a, x| a * 256 + *x as i128))));
                Val::L(l)
            },
            k => panic!("harness: conversion {}", k),
        }
    }

    /// A payload: mostly valid, sometimes of a wrong length or with a bad checked field.
    pub fn payload(&self, g: &Group, r: &mut Rng) -> Vec<u8> {
        let style = r.below(4);
        let mut p: Vec<u8> = match style { 0 => vec![0; self.size], 1 => vec![0xff; self.size], _ => r.bytes(self.size) };
        let invalid = r.chance(1, 5);
        for f in self.fields.iter().filter(|f| f.size > 0) {
            let x = &mut p[f.off..f.off + f.size];
            if f.conv["k"] == "str" || f.conv["k"] == "optstr" { if r.chance(4, 5) { for b in x.iter_mut() { *b = r.range(32, 126) as u8; } if x.len() > 2 && r.bool() { x[0] = 0xc3; x[1] = 0xa9; } } }
            else if r.chance(1, 3) && width(&f.raw) > 0 { x.copy_from_slice(&r.corner(8 * x.len() as u32).to_le_bytes()[..f.size]); }
            else if r.chance(1, 4) { let b = r.bytes(f.size); x.copy_from_slice(&b); }
            if r.chance(1, 12) { x[0] = 0xee; }
            let break_it = invalid && r.chance(1, 2);
            if f.fail && !break_it {
                if f.valid["v"] == "enum" { let v = &g.en(&f.valid).variants; x[0] = r.pick(v).1; }
                for _ in 0..400 {
                    let ok = match f.valid["v"].as_str().unwrap() { "mod5" => int(&f.raw, x).rem_euclid(5) != 3, "mod7" => int(&f.raw, x).rem_euclid(7) != 2, "le3" => (0..=3).contains(&int(&f.raw, x)), "utf8" => utf(x).is_some(), "first" => x[0] != 0xee, _ => true };
                    if ok { break; }
                    if f.valid["v"] == "le3" { x.fill(0); x[0] = r.below(4) as u8; } else if f.valid["v"] == "utf8" { for b in x.iter_mut() { *b = r.range(32, 126) as u8; } } else { x[0] = r.u8(); }
                }
            } else if f.fail && break_it && f.valid["v"] == "first" { x[0] = 0xee; }
        }
        if !self.fixed {
            let need = self.min(&p);
            if self.fields.iter().any(|f| f.sizefn.is_some()) {
                let n = need - self.size;
                p.extend(r.bytes(n));
                if r.chance(1, 5) { let n = r.range(1, 5); p.extend(r.bytes(n)); }
            } else {
                let room = self.max.saturating_sub(self.size);
                let n = match r.below(5) { 0 => 0, 1 => r.below(room.min(5) + 1), 2 => r.below(room.min(40) + 1), 3 => 12.min(room), _ => if r.chance(1, 30) { room } else { r.below(room.min(24) + 1) } };
                let n = n.min(600);
                if r.bool() { for _ in 0..n { p.push(r.range(32, 126) as u8); } } else { p.extend(r.bytes(n)); }
            }
            if r.chance(1, 6) && p.len() > self.size { p[self.size] = 0xee; }
        }
        if r.chance(1, 6) {
            match r.below(4) {
                0 => { let k = r.below(p.len() + 1); p.truncate(k); },
                1 => { p.pop(); },
                2 => p.push(r.u8()),
                _ => { let k = r.range(1, 9); p.extend(r.bytes(k)); },
            }
        }
        p
    }

    pub fn default_input(&self, g: &Group, f: &Field) -> In {
        match f.conv["k"].as_str().unwrap() {
            "items" => In::L(vec![]),
            "enum" => In::I(g.en(&f.conv).default as i128),
            "scale" | "plus1" => In::F(0.0),
            "plain" if f.raw == "bytes" => In::B(vec![0; f.size]),
            "plain" if f.raw.starts_with('f') => In::F(0.0),
            _ => In::I(0),
        }
    }
    pub fn input(&self, g: &Group, f: &Field, r: &mut Rng) -> In {
        let n = 8 * width(&f.raw) as u32;
        let any = |r: &mut Rng| wrap(&f.raw, if r.bool() { r.corner(n) as i128 } else { r.u64() as i128 });
        match f.conv["k"].as_str().unwrap() {
            "items" => { let k = r.below(6); In::L((0..k).map(|_| { let m = match r.below(5) { 0 => 0, 1 => 300, _ => r.below(20) }; r.bytes(m) }).collect()) },
            "enum" => { let e = g.en(&f.conv); loop { let x = if r.bool() { r.pick(&e.variants).1 } else { r.u8() }; if e.name_of(x).is_some() { return In::I(x as i128); } } },
            "scale" => {
                let sc = num(&f.enc["scale"]);
                let (lo, hi) = limits(&f.raw);
                let x = match r.below(8) {
                    0 => *r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e-300, 1.0, -1.0]),
                    1 => *r.pick(&[lo, hi, lo + 1, hi - 1, 0, 1, 2]) as f64 * sc,
                    2 => (r.below(200) as f64 - 100.0) * sc / 4.0,
                    3 => (hi as f64 + r.below(9) as f64 / 3.0 - 1.0) * sc,
                    4 => (lo as f64 + r.below(9) as f64 / 3.0 - 1.0) * sc,
                    5 => f64::from_bits(r.u64()),
                    _ => (lo + ((r.u64() as i128) & (hi - lo))) as f64 * sc + sc * (r.below(1000) as f64 / 1000.0 - 0.5),
                };
                let x = if f.conv["f"] == "f32" { x as f32 as f64 } else { x };
                In::F(if x.is_nan() { 0.25 } else { x })
            },
            "plus1" => In::F(match r.below(4) { 0 => *r.pick(&[f64::INFINITY, -1e30, 0.5, -0.5, 255.9, 1e10]), _ => any(r) as f64 + r.below(4) as f64 / 4.0 }),
            "widen" => In::I(any(r)),
            "bool" => In::I(r.below(2) as i128),
            "sum" => In::I(wrap("u32", r.corner(32) as i128)),
            "flags" => In::I(any(r)),
            _ if f.raw == "bytes" => In::B(if r.chance(1, 4) { vec![r.u8(); f.size] } else { r.bytes(f.size) }),
            _ if f.raw == "f32" => In::F(loop { let x = if r.bool() { f32::from_bits(r.u32()) } else { *r.pick(&[0.0f32, -0.0, 1.5, f32::INFINITY, f32::MIN_POSITIVE, 1e-45]) }; if !x.is_nan() { break x as f64; } }),
            _ if f.raw == "f64" => In::F(loop { let x = if r.bool() { f64::from_bits(r.u64()) } else { *r.pick(&[0.0f64, -0.0, 1.5, f64::NEG_INFINITY, 5e-324]) }; if !x.is_nan() { break x; } }),
            _ => In::I(any(r)),
        }
    }
    /// Are these the bytes of a field for that input?
    pub fn encoding_ok(&self, _g: &Group, f: &Field, x: &In, b: &[u8]) -> Result<(), String> {
        let t = f.raw.as_str();
        let le = |v: i128| v.to_le_bytes()[..f.size].to_vec();
        let want = match (f.enc["k"].as_str(), x) {
            (_, In::L(l)) => l.concat(),
            (None, In::B(v)) => v.clone(),
            (None, In::F(v)) if t == "f32" => (*v as f32).to_le_bytes().to_vec(),
            (None, In::F(v)) => v.to_le_bytes().to_vec(),
            (None, In::I(v)) => le(*v),
            (Some("scale"), In::F(v)) => {
                let (lo, hi) = limits(t);
                let q = v / num(&f.enc["scale"]);
                let eps = if f.enc["f"] == "f32" { 5e-7 } else { 2e-15 };
                let to = |z: f64| if z >= hi as f64 { hi } else if z <= lo as f64 { lo } else { z as i128 };
                let d = if q.is_infinite() { 0.0 } else { q.abs() * eps + 1e-300 };
                let (a, c) = (to((q - d - 0.5).ceil()), to((q + d + 0.5).floor()));
                let got = int(t, b);
                return if a <= got && got <= c { Ok(()) } else { Err(format!("{} in steps of {} encoded as {}, expected {}..={}", v, s(&f.enc["scale"]), got, a, c)) };
            },
            (Some("enum" | "flags"), In::I(v)) => le(*v),
            (Some("cust"), In::I(v)) => le(wrap(t, if f.enc["fn"] == "into2" { v - 9 } else { v ^ 0x35 })),
            (Some("bool"), In::I(v)) => le(if *v != 0 { 3 } else { 2 }),
            (Some("opt" | "narrow"), In::I(v)) => le(*v),
            (Some("trunc"), In::F(v)) => { let (lo, hi) = limits(t); le(if *v >= hi as f64 { hi } else if *v <= lo as f64 { lo } else { *v as i128 }) },
            (Some("sum"), In::I(v)) => le(*v),
            _ => panic!("harness: encoding of {}", f.kind()),
        };
        if want == b { Ok(()) } else { Err(format!("{:?} encoded as {:02x?}, expected {:02x?}", x, &b[..b.len().min(40)], &want[..want.len().min(40)])) }
    }
}
impl Group {
    pub fn en(&self, v: &Value) -> &Enum { let n = s(&v["e"]); self.enums.iter().find(|e| e.name == n).expect("harness: enum") }
}
