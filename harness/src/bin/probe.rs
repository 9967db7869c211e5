//! C18 and C09: runs one fixed workload over the whole public interface and prints a digest per case.
//! tools/check_c18.py compares the digests of the crate's feature configurations; tools/check_c09.py runs it under
//! Miri and AddressSanitizer. Lines: `<class> <section> <case> <digest> <results>`; classes: `all` (every
//! configuration has the interface), `vec` (growable buffer), `alloc`, `std`, `serde`.
//! PROBE_CASES=N caps the cases of each section (spread over it), PROBE_PART=i/n runs one share of them, PROBE_SHORT=1 makes streams short.
use std::collections::BTreeMap;
use std::io::Write;
use std::ops::{Index, Range};
use ublox::*;
use vh::build::*;
use vh::cfgv::*;
use vh::frames::*;
use vh::gen_build as gb;
use vh::gen_cfg::*;
use vh::gen_obs::*;
use vh::model::*;
use vh::obs::guarded;
use vh::obs::Val;
use vh::rng::*;
use vh::run::{crop, hex, take_panic};
use vh::spec::*;

struct Out { seed: u64, cap: u64, part: (u64, u64),  thorough: bool, show: Option<(String, String, u64)>, w: std::io::BufWriter<std::io::Stdout>, counts: BTreeMap<String, u64>, all: Vec<String> }
impl Out {
    fn section(&mut self, class: &str, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Rng, u64, &mut Vec<String>)) {
        let n = if self.thorough { thorough } else { quick };
        self.all.push(format!("{}/{}", class, name));
        let m = n.min(self.cap.saturating_mul(if name == "memory histories" { 12 } else { 1 }));
        let t0 = std::time::Instant::now();
        for j in 0..m {
            let i = (j as u128 * n as u128 / m as u128) as u64;
            if j % self.part.1 != self.part.0 { continue; }
            if let Some((c, s, k)) = &self.show { if (c.as_str(), s.as_str(), *k) != (class, name, i) { continue; } }
            let mut r = Rng::for_case(self.seed, name, i);
            let mut t = vec![];
            let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, i, &mut t)));
            if p.is_err() {
                let m = take_panic();
                if m.contains("harness:") { eprintln!("HARNESS-ERROR {} {}: {}", name, i, m); std::process::exit(2); }
                t.push(format!("panic: {}", m));
            }
            if self.show.is_some() { for l in &t { println!("{}", crop(l, 6000)); } continue; }
            let mut h = t.len() as u64;
            for l in &t { h = mix(h ^ hash_bytes(l.as_bytes())); }
            *self.counts.entry(class.to_string()).or_default() += t.len() as u64;
            let tag = name.replace(' ', "_");
            let _ = writeln!(self.w, "{} {} {} {:016x} {}", class, tag, i, h, t.len());
        }
        if std::env::var("PROBE_TIMES").is_ok() { eprintln!("TIME {:.1} {}", t0.elapsed().as_secs_f64(), name); }
    }
}

/// A buffer of the user's own: a bounded byte list.
struct Own { v: Vec<u8>, cap: usize }
impl Index<usize> for Own { type Output = u8; fn index(&self, i: usize) -> &u8 { &self.v[i] } }
impl Index<Range<usize>> for Own { type Output = [u8]; fn index(&self, r: Range<usize>) -> &[u8] { &self.v[r] } }
impl UnderlyingBuffer for Own {
    fn clear(&mut self) { self.v.clear() }
    fn len(&self) -> usize { self.v.len() }
    fn max_capacity(&self) -> usize { self.cap }
    fn extend_from_slice(&mut self, b: &[u8]) -> usize { let n = b.len().min(self.cap - self.v.len()); self.v.extend_from_slice(&b[..n]); b.len() - n }
    fn drain(&mut self, n: usize) { self.v.drain(..n); }
}

fn packet_text(p: &PacketRef, deep: bool, t: &mut Vec<String>) {
    t.push(format!("{:?} {}", p.class_and_msg_id(), kind_of(p)));
    let o = observe(p);
    t.push(format!("{} {}", hex(&o.bytes), o.vals.len()));
    if deep { for (n, v) in &o.vals { t.push(format!("{} {:?}", n, v)); } }
    t.push(format!("{:?}", guarded(|| Val::Str(format!("{:?}", p)))));
    if deep { t.push(format!("{:?}", guarded(|| Val::Str(format!("{:#?}", p))))); }
    conversions(p, t);
}
fn conversions(p: &PacketRef, t: &mut Vec<String>) {
    use std::convert::TryFrom;
    type Utc = chrono::DateTime<chrono::Utc>;
    match p {
        PacketRef::NavPosLlh(x) => t.push(format!("{:?}", Position::from(x))),
        PacketRef::NavHpPosLlh(x) => t.push(format!("{:?}", Position::from(x))),
        PacketRef::NavHpPosEcef(x) => t.push(format!("{:?}", PositionECEF::from(x))),
        PacketRef::NavVelNed(x) => t.push(format!("{:?}", Velocity::from(x))),
        PacketRef::NavPvt(x) => {
            t.push(format!("{:?} {:?}", Position::from(x), Velocity::from(x)));
            t.push(match Utc::try_from(x) { Ok(d) => format!("{:?}", d), Err(e) => format!("{:?} {}", e, e) });
        },
        _ => {},
    }
}
fn error_text(e: &ParserError, t: &mut Vec<String>) { t.push(format!("{:?} | {}", e, e)); t.push(format!("{:#?}", e)); }
fn feed<B: UnderlyingBuffer>(p: &mut Parser<B>, s: &[u8], cuts: &[usize], takes: &[usize], json: bool, t: &mut Vec<String>) {
    let mut at = 0;
    for (n, k) in cuts.iter().zip(takes) {
        let chunk = &s[at..at + n];
        at += n;
        {
            let mut it = p.consume(chunk);
            for _ in 0..*k {
                match it.next() {
                    None => break,
                    Some(Ok(q)) => { packet_text(&q, false, t); if json { json_text(&q, t); } },
                    Some(Err(e)) => error_text(&e, t),
                }
            }
        }
        t.push(format!("held {} {}", p.buffer_len(), p.is_buffer_empty()));
    }
}
#[cfg(feature = "serde")]
fn json_text(q: &PacketRef, t: &mut Vec<String>) {
    t.push(format!("{:?}", guarded(|| Val::Str(match serde_json::to_string(q) { Ok(s) => s, Err(e) => format!("error {}", e) }))));
    t.push(format!("{:?}", guarded(|| Val::Str(match inner_json(q) { Ok(s) => s, Err(e) => format!("error {}", e) }))));
}
#[cfg(not(feature = "serde"))]
fn json_text(_: &PacketRef, _: &mut Vec<String>) {}

fn short(r: &mut Rng, o: &[&'static PacketSpec], n: usize) -> Vec<u8> {
    let mut s = vec![];
    let min = r.range(n / 4, n);
    while s.len() < min {
        match r.below(5) {
            0 => { let n = r.below(9); s.extend(dense(r, n)) },
            1 => { let n = r.below(12); let b = r.bytes(n); s.extend(b) },
            _ => {
                let p = *r.pick(o);
                if p.min > n / 2 { continue; }
                let pl = payload(r, p, Fill::Corner);
                if pl.len() <= n { s.extend(frame(p.class, p.id, &pl)) } else { let n = r.below(20); let b = r.bytes(n); s.extend(frame(p.class, p.id, &b)) }
            },
        }
    }
    s
}
fn workload(r: &mut Rng, i: u64) -> (Vec<u8>, Vec<usize>, Vec<usize>) {
    // PROBE_SHORT (interpreter): streams that are cheap to make and read
    let s = if std::env::var("PROBE_SHORT").is_ok() { let o = order(); let n = r.range(30, 500); short(r, &o, n) } else { match i % 5 { 0 => { let n = r.range(1, 200); dense(r, n) }, 1 => stream(r, 12, true), _ => { let n = r.range(1, 8); stream(r, n, false) } } };
    let mut cuts = chunks(r, s.len());
    cuts.push(0);
    let early = r.chance(1, 3);
    let takes = cuts.iter().map(|_| if early && r.bool() { r.below(3) } else { usize::MAX }).collect();
    (s, cuts, takes)
}

/// Records what a builder asks of its writer, failing at call `at`.
struct Rec { t: Vec<String>, at: usize }
impl Rec { fn go(&mut self, s: String) -> Result<(), MemWriterError<u8>> { self.t.push(s); if self.t.len() == self.at { Err(if self.at % 2 == 0 { MemWriterError::NotEnoughMem } else { MemWriterError::Custom(self.at as u8) }) } else { Ok(()) } } }
impl MemWriter for Rec {
    type Error = u8;
    fn reserve_allocate(&mut self, n: usize) -> Result<(), MemWriterError<u8>> { self.go(format!("reserve {}", n)) }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<u8>> { self.go(format!("write {}", hex(b))) }
}
struct Sink(Vec<u8>);
impl Extend<u8> for Sink { fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) { self.0.extend(it) } }
impl std::ops::Deref for Sink { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl std::ops::DerefMut for Sink { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }

fn main() {
    vh::run::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let show = a.iter().position(|x| x == "--show").map(|k| (a[k + 1].clone(), a[k + 2].replace('_', " "), a[k + 3].parse().unwrap()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let cap = std::env::var("PROBE_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let part = std::env::var("PROBE_PART").ok().and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))).unwrap_or((0, 1));
    let mut x = Out { seed, cap, part, thorough, show, w: std::io::BufWriter::new(std::io::stdout()), counts: BTreeMap::new(), all: vec![] };

    let o = order();
    let k = o.len() as u64;
    x.section("all", "streams through a fixed buffer", 6_000, 300_000, |r, i, t| {
        let (s, cuts, takes) = workload(r, i);
        let cap = match i % 3 { 0 => r.range(4, 64), 1 => r.range(64, 700), _ => 9000 };
        let mut mem: Vec<u8> = (0..cap).map(|k| [0xb5u8, 0x62, 5, 1][k % 4]).collect();
        feed(&mut Parser::new(FixedLinearBuffer::new(&mut mem)), &s, &cuts, &takes, false, t);
    });
    x.section("all", "memory histories", 6_000, 300_000, |r, i, t| {
        // a short stream through a fixed buffer in the middle of the caller's memory
        let s = short(r, &o, 90);
        let (lo, cap, hi) = (r.below(20), r.range(4, 70), r.below(20));
        let fill = [0xb5u8, 0x62, 0, 0xff][(i % 4) as usize];
        let mut mem = vec![0xa7u8; lo + cap + hi];
        mem[lo..lo + cap].fill(fill);
        {
            let mut p = Parser::new(FixedLinearBuffer::new(&mut mem[lo..lo + cap]));
            let mut at = 0;
            while at < s.len() {
                let n = r.range(1, 25).min(s.len() - at);
                let mut it = p.consume(&s[at..at + n]);
                let k = if r.chance(1, 4) { r.below(3) } else { usize::MAX };
                for _ in 0..k {
                    match it.next() {
                        None => break,
                        Some(Ok(q)) => { let v = observe(&q); t.push(format!("{} {} {:?}", v.kind, hex(&v.bytes), v.vals)); if r.chance(1, 4) { t.push(format!("{:?}", guarded(|| Val::Str(format!("{:?}", q))))); } },
                        Some(Err(e)) => t.push(format!("{:?}", e)),
                    }
                }
                at += n;
            }
            t.push(format!("held {}", p.buffer_len()));
        }
        if !mem[..lo].iter().chain(&mem[lo + cap..]).all(|b| *b == 0xa7) { eprintln!("GUARD bytes beside the buffer were overwritten: {}", hex(&mem)); std::process::exit(3); }
    });
    x.section("all", "streams through a user buffer", 4_000, 200_000, |r, i, t| {
        let (s, cuts, takes) = workload(r, i);
        let cap = if i % 3 == 0 { r.range(4, 300) } else { usize::MAX };
        feed(&mut Parser::new(Own { v: vec![], cap }), &s, &cuts, &takes, false, t);
    });
    let deliver = |p: &PacketSpec, pl: &[u8], f: &mut dyn FnMut(&PacketRef)| {
        let fr = frame(p.class, p.id, pl);
        let mut mem = vec![0u8; fr.len()];
        let mut q = Parser::new(FixedLinearBuffer::new(&mut mem));
        let mut it = q.consume(&fr);
        if let Some(Ok(y)) = it.next() { f(&y) };
    };
    let pay = |r: &mut Rng, p: &PacketSpec, i: u64| {
        // valid payloads, payloads with unchecked content, payloads of a wrong length
        match i % 8 {
            0 => { let n = r.below(p.max + 2); r.bytes(n) },
            1 => { let n = match p.fixed { Some(n) => n, None => valid_len(r, p) }; r.bytes(n) },
            2 | 3 | 4 => payload(r, p, Fill::Corner),
            _ => payload(r, p, Fill::Random),
        }
    };
    x.section("all", "packet values and texts", k * 160, k * 8_000, |r, i, t| {
        let p = o[(i % k) as usize];
        let pl = pay(r, p, i / k);
        deliver(p, &pl, &mut |q| packet_text(q, true, t));
    });
    #[cfg(feature = "serde")]
    x.section("serde", "serialized packets", k * 80, k * 4_000, |r, i, t| {
        let p = o[(i % k) as usize];
        let pl = pay(r, p, i / k);
        deliver(p, &pl, &mut |q| { json_text(q, t); if let PacketRef::NavPvt(v) = q { t.push(serde_json::to_string(&(Position::from(v), Velocity::from(v))).unwrap_or_default()); } });
    });
    x.section("all", "positions, velocities and times", 20_000, 1_000_000, |r, i, t| {
        let p = packet(["NavPvt", "NavPosLlh", "NavHpPosLlh", "NavHpPosEcef", "NavVelNed", "NavPvt", "NavPvt"][(i % 7) as usize]);
        let mut pl = payload(r, p, if i % 2 == 0 { Fill::Random } else { Fill::Corner });
        if p.name == "NavPvt" && r.chance(3, 4) {
            let y = 1900 + r.below(300) as u16;
            pl[4..6].copy_from_slice(&y.to_le_bytes());
            pl[6] = r.below(14) as u8; pl[7] = r.below(33) as u8; pl[8] = r.below(26) as u8; pl[9] = r.below(62) as u8; pl[10] = r.below(62) as u8;
            let ns = match r.below(3) { 0 => -1_000_000_001 + r.below(4) as i32, 1 => 1_000_000_001 - r.below(4) as i32, _ => r.u32() as i32 >> 1 };
            pl[16..20].copy_from_slice(&ns.to_le_bytes());
        }
        deliver(p, &pl, &mut |q| conversions(q, t));
    });
    let send = sendable();
    let sk = send.len() as u64;
    x.section("all", "built frames and writer calls", sk * 600, sk * 30_000, |r, i, t| {
        let p = send[(i % sk) as usize];
        let (inp, _) = gen_inputs(r, p, if i % 3 == 0 { Scl::Wild } else { Scl::Representable });
        let (a, b, n) = gb::bytes(p.name, &inp);
        t.push(format!("{} {} {}", hex(&a), hex(&b), n));
        let mut w = Rec { t: vec![], at: if r.bool() { 0 } else { r.range(1, p.fields.len() + 3) } };
        let e = gb::create(p.name, &inp, &mut w);
        t.append(&mut w.t);
        t.push(match e { Ok(()) => "ok".into(), Err(e) => format!("{:?} | {}", e, e) });
        if let Some(d) = gb::default_bytes(p.name) { t.push(hex(&d)); }
    });
    x.section("all", "read, modify, write", k * 40, k * 2_000, |r, i, t| {
        let p = o[(i % k) as usize];
        if !p.send { return; }
        let pl = payload(r, p, Fill::Corner);
        deliver(p, &pl, &mut |q| t.push(format!("{:?}", gb::rebuild(q).map(|b| hex(&b)))));
    });
    x.section("all", "configuration items", 8_000, 400_000, |r, i, t| {
        let n = match i % 4 { 0 => 1, 1 => r.below(65), _ => r.below(9) };
        let kv: Vec<(usize, u64)> = (0..n).map(|_| { let k = r.below(KEYS.len()); (k, gen_val(r, &KEYS[k])) }).collect();
        let vals: Vec<_> = kv.iter().map(|(k, v)| make(*k, *v)).collect();
        let k = r.below(20);
        let mut o = Sink(r.bytes(k));
        for v in &vals {
            t.push(format!("{:?} {}", v, v.len()));
            let mut m = vec![0xa5u8; 24];
            let n = v.write_to(&mut m);
            t.push(format!("{} {:?}", hex(&m), n));
            v.extend_to(&mut o);
        }
        t.push(hex(&o.0));
        let mut s = Sink(r.bytes(k));
        CfgValSetBuilder { version: r.below(2) as u8, layers: CfgLayer::from_bits_truncate(r.below(8) as u8), reserved1: r.u32() as u16, cfg_data: &vals }.extend_to(&mut s);
        t.push(hex(&s.0));
        let mut mem = vec![0u8; 12 * n + 3];
        let mut it = CfgValIter::new(&mut mem, &vals);
        for _ in 0..n + 2 { t.push(format!("{:?}", it.next())); }
    });
    x.section("all", "fixed buffer histories", 6_000, 300_000, |r, _, t| {
        let cap = r.below(40);
        let mut mem = vec![0u8; cap];
        let mut b = FixedLinearBuffer::new(&mut mem);
        let refused = |v: Result<String, Box<dyn std::any::Any + Send>>| v.unwrap_or_else(|_| { take_panic(); "refused".into() });
        for _ in 0..r.range(1, 30) {
            let (i, j) = (r.below(cap + 3), r.below(cap + 3));
            let n = r.below(20);
            t.push(match r.below(6) {
                0 | 1 => { let v: Vec<u8> = (0..n).map(|_| *r.pick(&[0xb5u8, 0x62, 0, 7])).collect(); format!("extend {}", b.extend_from_slice(&v)) },
                2 => { b.drain(n); "drain".into() },
                3 => if r.chance(1, 5) { b.clear(); "clear".into() } else { format!("find {:?}", b.find(*r.pick(&[0xb5u8, 0x62, 7, 9]))) },
                4 => refused(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("at {}", b[i])))),
                _ => refused(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("range {:?}", &b[i..j])))),
            });
            t.push(format!("{} {} {}", b.len(), b.is_empty(), b.max_capacity()));
        }
    });
    let ms = metas();
    let mk = ms.len() as u64;
    x.section("all", "metadata, polls, rates, acknowledgements", mk * 40, mk * 1_000, |r, i, t| {
        let m = &ms[(i % mk) as usize];
        t.push(format!("{} {} {} {:?} {} {}", m.name, m.class, m.id, m.fixed, m.max, hex(&m.request)));
        t.push(hex(&UbxPacketRequest::request_for_unknown(r.u8(), r.u8()).into_packet_bytes()));
        t.push(hex(&rate_single(m.name, r.u8())));
        t.push(hex(&rate_all(m.name, [r.u8(), r.u8(), r.u8(), r.u8(), r.u8(), r.u8()])));
        for nak in [false, true] {
            let pl = match r.below(3) { 0 => [m.class, m.id], 1 => [m.class, r.u8()], _ => [r.u8(), m.id] };
            deliver(packet(if nak { "AckNak" } else { "AckAck" }), &pl, &mut |q| match q {
                PacketRef::AckAck(a) => t.push(format!("ack {}", is_ack(m.name, a))),
                PacketRef::AckNak(a) => t.push(format!("nak {}", is_nak(m.name, a))),
                _ => t.push("other".into()),
            });
        }
    });
    #[allow(deprecated)]
    x.section("all", "aiding data", 20_000, 1_000_000, |r, _, t| {
        use chrono::prelude::*;
        let d = NaiveDate::from_ymd_opt(1970 + r.below(200) as i32, 1 + r.below(12) as u32, 1 + r.below(28) as u32).unwrap().and_hms_nano_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32, r.u32() % 1_000_000_000).unwrap();
        let p = Position { lon: (r.u32() as i32) as f64 * 8.4e-8, lat: (r.u32() as i32) as f64 * 4.2e-8, alt: (r.u32() as i32) as f64 / 1000.0 };
        let mut b = AidIniBuilder::default();
        if r.bool() { b = b.set_position(p); }
        if r.bool() { b = b.set_time(DateTime::<Utc>::from_utc(d, Utc)); }
        t.push(hex(&b.into_packet_bytes()));
    });
    x.section("all", "error texts", 4_000, 40_000, |r, _, t| {
        error_text(&ParserError::InvalidChecksum { expect: r.corner(16) as u16, got: r.corner(16) as u16 }, t);
        error_text(&ParserError::InvalidField { packet: "A", field: "b" }, t);
        error_text(&ParserError::InvalidPacketLen { packet: "C", expect: r.corner(32) as usize, got: r.corner(64) as usize }, t);
        error_text(&ParserError::OutOfMemory { required_size: r.corner(64) as usize }, t);
        for e in [DateTimeError::InvalidDate, DateTimeError::InvalidTime, DateTimeError::InvalidNanoseconds] { t.push(format!("{:?} {}", e, e)); }
        for e in [MemWriterError::NotEnoughMem, MemWriterError::Custom(r.u8())] { t.push(format!("{:?} {}", e, e)); }
    });
    #[cfg(any(feature = "std", feature = "alloc"))]
    x.section("vec", "streams through a growable buffer", 6_000, 300_000, |r, i, t| {
        let (s, cuts, takes) = workload(r, i);
        feed(&mut Parser::default(), &s, &cuts, &takes, false, t);
    });
    #[cfg(all(feature = "serde", any(feature = "std", feature = "alloc")))]
    x.section("vec+serde", "serialized streams", 1_500, 60_000, |r, i, t| {
        let (s, cuts, takes) = workload(r, i);
        feed(&mut Parser::default(), &s, &cuts, &takes, true, t);
    });
    #[cfg(feature = "alloc")]
    x.section("alloc", "configuration messages by value", 4_000, 200_000, |r, _, t| {
        let n = r.below(40);
        let vals: Vec<_> = (0..n).map(|_| { let k = r.below(KEYS.len()); make(k, gen_val(r, &KEYS[k])) }).collect();
        t.push(hex(&CfgValSetBuilder { version: r.below(2) as u8, layers: CfgLayer::from_bits_truncate(r.below(8) as u8), reserved1: r.u32() as u16, cfg_data: &vals }.into_packet_vec()));
    });
    #[cfg(feature = "std")]
    x.section("std", "frames written to a vector", sk * 100, sk * 5_000, |r, i, t| {
        let p = send[(i % sk) as usize];
        let (inp, _) = gen_inputs(r, p, Scl::Wild);
        let n = r.below(20);
        let mut v = r.bytes(n);
        let e = gb::create(p.name, &inp, &mut v);
        t.push(format!("{:?} {}", e.is_ok(), hex(&v)));
        let e: &dyn std::error::Error = &ParserError::OutOfMemory { required_size: 3 };
        t.push(e.to_string());
    });
    if x.show.is_none() {
        let c = std::mem::take(&mut x.counts);
        for (k, n) in c { let _ = writeln!(x.w, "# {} {}", k, n); }
        let _ = writeln!(x.w, "# end");
    }
    let _ = x.w.flush();
}
