//! C13: configuration-set messages are appended as one valid frame.
use std::ops::{Deref, DerefMut};
use ublox::cfg_val::CfgVal;
use ublox::*;
use vh::cfgv::*;
use vh::gen_cfg::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;

/// A container that checks it is only ever appended to and patched inside the appended region.
struct Guarded { v: Vec<u8>, keep: Vec<u8>, appends: u64, biggest: usize }
impl Extend<u8> for Guarded {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) { let n = self.v.len(); self.v.extend(it); self.appends += 1; self.biggest = self.biggest.max(self.v.len() - n); }
}
impl Deref for Guarded { type Target = [u8]; fn deref(&self) -> &[u8] { &self.v } }
impl DerefMut for Guarded { fn deref_mut(&mut self) -> &mut [u8] { &mut self.v } }
impl Guarded {
    fn intact(&self) -> bool { self.v.len() >= self.keep.len() && self.v[..self.keep.len()] == self.keep[..] }
}

fn want(version: u8, layers: u8, reserved1: u16, kv: &[(usize, u64)]) -> Vec<u8> {
    let mut pl = vec![version, layers, reserved1 as u8, (reserved1 >> 8) as u8];
    for (k, v) in kv { pl.extend(encode(&KEYS[*k], *v)); }
    frame(0x06, 0x8a, &pl)
}
struct Msg { version: u8, layers: u8, reserved1: u16, kv: Vec<(usize, u64)>, vals: Vec<CfgVal> }
fn message(r: &mut Rng, n: usize) -> Msg {
    let kv: Vec<(usize, u64)> = (0..n).map(|_| { let k = r.below(KEYS.len()); (k, gen_val(r, &KEYS[k])) }).collect();
    let vals = kv.iter().map(|(k, v)| make(*k, *v)).collect();
    Msg { version: if r.bool() { r.below(2) as u8 } else { r.u8() }, layers: r.below(8) as u8, reserved1: if r.bool() { 0 } else { r.u32() as u16 }, kv, vals }
}
impl Msg {
    fn builder(&self) -> CfgValSetBuilder<'_> { CfgValSetBuilder { version: self.version, layers: CfgLayer::from_bits_truncate(self.layers), reserved1: self.reserved1, cfg_data: &self.vals } }
    fn want(&self) -> Vec<u8> { want(self.version, self.layers, self.reserved1, &self.kv) }
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("first difference at {} (lengths {} and {})", i, a.len(), b.len())
}
fn case(c: &mut Case, counts: &[usize], pre: Vec<u8>) -> Res {
    let msgs: Vec<Msg> = counts.iter().map(|n| message(&mut c.rng, *n)).collect();
    let mut g = Guarded { v: pre.clone(), keep: pre.clone(), appends: 0, biggest: 0 };
    let mut v = pre.clone();
    let mut all = pre.clone();
    for m in &msgs {
        let w = m.want();
        all.extend(&w);
        let desc = || format!("version {} layers {} reserved {} {} values, container held {} bytes", m.version, m.layers, m.reserved1, m.kv.len(), g_len(&all, &w));
        c.call("extend_to", || m.builder().extend_to(&mut g))?;
        if !g.intact() { return viol("extend_to changes what the container held", format!("{}; {}", desc(), first_diff(&g.v, &all))); }
        if g.v != all { return viol("extend_to does not append exactly the frame", format!("{}; {}; got {} expected {}", desc(), first_diff(&g.v, &all), hex(&g.v[all.len() - w.len()..]), hex(&w))); }
        g.keep = g.v.clone();
        c.call("extend_to", || m.builder().extend_to(&mut v))?;
        if v != all { return viol("extend_to a vector does not append exactly the frame", format!("{}; {}", desc(), first_diff(&v, &all))); }
        let b = c.call("into_packet_vec", || m.builder().into_packet_vec())?;
        if b != w { return viol("into_packet_vec is not the frame", format!("{}; got {} expected {}", desc(), hex(&b), hex(&w))); }
        c.count("messages appended", 1);
        c.count("items encoded", m.kv.len() as u64);
        c.distinct_bytes(&w);
        if c.want_sample() { c.sample(format!("{} -> {}", desc(), crop(&hex(&w), 200))); }
    }
    c.count("append calls on the recording container", g.appends);
    // the appended part of the container is read back as these messages by a parser
    let mut p = Parser::default();
    let mut got = vec![];
    let r = c.call("parsing", || take(&mut p, &v[pre.len()..], usize::MAX, &mut got))?;
    if let Err(e) = r { return viol("appended messages do not parse back", e); }
    let exp: Vec<Ev> = msgs.iter().map(|m| { let w = m.want(); Ev::Frame { class: 6, id: 0x8a, payload: w[6..w.len() - 2].to_vec() } }).collect();
    if got != exp { return viol("appended messages do not parse back", format!("{} results for {} messages: {:?}", got.len(), exp.len(), got.iter().map(short).collect::<Vec<_>>())); }
    c.count("messages parsed back", exp.len() as u64);
    Ok(())
}
fn g_len(all: &[u8], w: &[u8]) -> usize { all.len() - w.len() }
fn main() {
    let mut x = Ctx::new("C13");
    x.boost = 30;
    x.assumptions = vec!["layer masks of the named layers; key encodings from spec/cfgval.json".into()];
    let n = x.n(12_000, 600_000);
    x.section("one message", "0..64 values into an empty or filled container (arbitrary bytes, sync bytes, unfinished frames)", n, |c| {
        let k = match c.rng.below(6) { 0 => 0, 1 => 1, 2 => 64, _ => c.rng.below(65) };
        let m = match c.rng.below(6) { 0 | 1 => 0, 2 => c.rng.range(1, 9), 3 => *c.rng.pick(&[255usize, 256, 257, 1000]), _ => c.rng.below(80) };
        let pre = if c.rng.bool() { c.rng.bytes(m) } else { (0..m).map(|_| *c.rng.pick(&[0xb5u8, 0x62, 0x06, 0x8a, 0, 0xff])).collect() };
        c.seen("container sizes before", m as u64);
        c.seen("value counts", k as u64);
        case(c, &[k], pre)
    });
    let n = x.n(3_000, 150_000);
    x.section("several messages", "2..6 messages appended to one container", n, |c| {
        let k: Vec<usize> = (0..c.rng.range(2, 6)).map(|_| if c.rng.chance(1, 4) { 0 } else { c.rng.below(30) }).collect();
        let m = if c.rng.bool() { 0 } else { c.rng.below(50) };
        let pre = c.rng.bytes(m);
        case(c, &k, pre)
    });
    x.section("every key", "each of the 434 items alone with several values", KEYS.len() as u64 * x.n(6, 64), |c| {
        let k = (c.idx % KEYS.len() as u64) as usize;
        let v = gen_val(&mut c.rng, &KEYS[k]);
        let vals = [make(k, v)];
        let w = want(0, 1, 0, &[(k, v)]);
        let b = c.call("into_packet_vec", || CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &vals }.into_packet_vec())?;
        if b != w { return viol("into_packet_vec is not the frame", format!("{} = {}: {} expected {}", KEYS[k].name, v, hex(&b), hex(&w))); }
        c.count("single items", 1);
        c.distinct_bytes(&w);
        Ok(())
    });
    let n = x.n(150, 5_000);
    x.section("long messages", "messages whose payload crosses 255, 256 and grows to the parser's limit", n, |c| {
        let k = *c.rng.pick(&[20usize, 21, 22, 40, 100, 300, 600]);
        case(c, &[k, 1], vec![])
    });
    x.require("messages appended", 10_000);
    x.require("messages parsed back", 10_000);
    x.finish()
}
