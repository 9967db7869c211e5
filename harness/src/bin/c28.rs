//! C28: memory use, observed by a counting allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::convert::TryFrom;
use std::fmt::Write as _;
use ublox::cfg_val::CfgVal;
use ublox::*;
use vh::build::*;
use vh::cfgv::*;
use vh::frames::*;
use vh::gen_build;
use vh::gen_cfg::*;
use vh::gen_obs::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;

struct Counting;
#[derive(Clone, Copy, Default)]
struct Tally { calls: u64, total: u64, live: i64, peak: i64 }
thread_local! { static T: Cell<Tally> = const { Cell::new(Tally { calls: 0, total: 0, live: 0, peak: 0 }) }; }
fn note(add: usize, sub: usize) {
    let _ = T.try_with(|t| {
        let mut x = t.get();
        if add > 0 { x.calls += 1; x.total += add as u64; }
        x.live += add as i64 - sub as i64;
        x.peak = x.peak.max(x.live);
        t.set(x);
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size(), 0); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size(), 0); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(0, l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n, l.size()); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

/// What this thread allocated while `f` ran: calls, bytes, change of what is held, peak above the start.
fn watch<R>(f: impl FnOnce() -> R) -> (R, Tally) {
    let a = T.with(|t| { let mut x = t.get(); x.peak = x.live; t.set(x); x });
    let r = f();
    let b = T.with(|t| t.get());
    (r, Tally { calls: b.calls - a.calls, total: b.total - a.total, live: b.live - a.live, peak: b.peak - a.live })
}
fn none(what: &str, t: Tally, detail: impl FnOnce() -> String) -> Res {
    if t.calls > 0 { return viol(format!("{} allocates", what), format!("{} allocations, {} bytes; {}", t.calls, t.total, detail())); }
    Ok(())
}
/// Swallows text, counting it.
struct Null(u64);
impl std::fmt::Write for Null { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len() as u64; Ok(()) } }
/// A writer or container with room of its own.
struct Room { m: [u8; 4096], n: usize }
impl MemWriter for Room {
    type Error = ();
    fn reserve_allocate(&mut self, n: usize) -> Result<(), MemWriterError<()>> { if self.n + n > self.m.len() { Err(MemWriterError::NotEnoughMem) } else { Ok(()) } }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<()>> { self.m[self.n..self.n + b.len()].copy_from_slice(b); self.n += b.len(); Ok(()) }
}
impl Extend<u8> for Room { fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) { for b in it { self.m[self.n] = b; self.n += 1; } } }
impl std::ops::Deref for Room { type Target = [u8]; fn deref(&self) -> &[u8] { &self.m[..self.n] } }
impl std::ops::DerefMut for Room { fn deref_mut(&mut self) -> &mut [u8] { &mut self.m[..self.n] } }

/// Reads a packet without keeping anything: every accessor and record through the debug text, payload, conversions.
fn read(p: &PacketRef, w: &mut Null) {
    let _ = p.class_and_msg_id();
    w.0 += payload_of(p).len() as u64;
    let _ = write!(w, "{:?}", p);
    match p {
        PacketRef::NavPosLlh(x) => { let _ = write!(w, "{:?}", Position::from(x)); },
        PacketRef::NavHpPosLlh(x) => { let _ = write!(w, "{:?}", Position::from(x)); },
        PacketRef::NavHpPosEcef(x) => { let _ = write!(w, "{:?}", PositionECEF::from(x)); },
        PacketRef::NavVelNed(x) => { let _ = write!(w, "{:?}", Velocity::from(x)); },
        PacketRef::NavPvt(x) => { let _ = write!(w, "{:?} {:?}", Position::from(x), Velocity::from(x)); let _ = chrono::DateTime::<chrono::Utc>::try_from(x).map(|d| w.0 += d.timestamp() as u64 & 1); },
        PacketRef::NavSat(x) => for s in x.svs() { w.0 += s.flags().sv_used() as u64; },
        PacketRef::RxmRawx(x) => for s in x.measurements() { w.0 += s.sv_id() as u64; },
        PacketRef::MonVer(x) => for s in x.extension() { w.0 += s.len() as u64; },
        PacketRef::EsfMeas(x) => for s in x.data() { w.0 += s.data_type as u64; },
        PacketRef::EsfRaw(x) => for s in x.data() { w.0 += s.data_type as u64; },
        PacketRef::AckAck(x) => w.0 += x.is_ack_for::<CfgPrtUart>() as u64,
        PacketRef::AckNak(x) => w.0 += x.is_nak_for::<CfgPrtUart>() as u64,
        _ => {},
    }
}
fn rich(r: &mut Rng) -> Vec<u8> {
    let mut s = vec![];
    for _ in 0..r.range(1, 6) {
        if r.chance(1, 4) { s.extend(stream(r, 2, false)); continue; }
        let fill = if r.bool() { Fill::Corner } else { Fill::Random };
        let (p, pl) = any_payload(r, fill);
        let mut f = frame(p.class, p.id, &pl);
        if r.chance(1, 8) { let k = f.len() - 1; f[k] ^= 1; }
        s.extend(f);
    }
    s
}

fn main() {
    let mut x = Ctx::new("C28");
    x.boost = 3;
    x.assumptions = vec!["memory is what the process's global allocator hands out; the bound on a growable parser is generous: four times the most bytes ever waiting in it or given at once, plus 64 kB".into()];
    // the allocator must be seen to count
    let (v, t) = watch(|| vec![1u8; 1000]);
    if t.calls != 1 || t.total != 1000 || watch(move || drop(v)).1.live != -1000 { panic!("harness: the allocator does not count"); }

    let n = x.n(12_000, 500_000);
    x.section("fixed parsers", "packet-rich and hostile streams through a fixed buffer (8-1500 bytes), iterations also dropped early; every packet read completely, errors printed: nothing is allocated; non-trivial: distinct streams with packets or errors", n, |c| {
        let s = rich(&mut c.rng);
        let cuts = chunks(&mut c.rng, s.len());
        let cap = c.rng.range(8, 1500);
        let mut mem = vec![0u8; cap];
        let takes: Vec<usize> = cuts.iter().map(|_| if c.rng.chance(1, 6) { c.rng.below(3) } else { usize::MAX }).collect();
        let (mut np, mut ne) = (0u64, 0u64);
        let mut w = Null(0);
        let (r, t) = watch(|| c.call("parsing", || {
            let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
            let mut at = 0;
            for (k, take) in cuts.iter().zip(&takes) {
                let mut it = p.consume(&s[at..at + k]);
                at += k;
                let mut i = 0;
                while i < *take {
                    match it.next() { None => break, Some(Ok(q)) => { read(&q, &mut w); np += 1; }, Some(Err(e)) => { let _ = write!(w, "{} {:?}", e, e); ne += 1; } }
                    i += 1;
                }
            }
            w.0 += p.buffer_len() as u64 + p.is_buffer_empty() as u64;
        }));
        if r.is_err() { c.count("panics (judged by C08)", 1); return Ok(()); }
        none("parsing with a fixed buffer", t, || format!("capacity {}, chunks {}, stream {}", cap, crop(&format!("{:?}", cuts), 200), hex(&s)))?;
        c.count("packets read without allocating", np);
        c.count("errors printed without allocating", ne);
        if np + ne > 0 { c.distinct_bytes(&s); }
        if c.want_sample() { c.sample(format!("capacity {}, {} bytes: {} packets, {} errors, {} characters printed, 0 allocations", cap, s.len(), np, ne, w.0)); }
        Ok(())
    });
    let n = x.n(12_000, 500_000);
    x.section("packet by packet", "every packet type read and printed alone, plain and pretty: nothing is allocated; non-trivial: distinct payloads", n, |c| {
        let (p, pl) = any_payload(&mut c.rng, Fill::Corner);
        let mut w = Null(0);
        let (r, t) = with_packet(c, p.class, p.id, &pl, |q| watch(|| c.call("reading", || { read(q, &mut w); let _ = write!(w, "{:#?}", q); })))?;
        if r.is_err() { c.count("panics (judged by C08)", 1); return Ok(()); }
        none(&format!("reading {}", p.name), t, || hex(&pl))?;
        c.count("packets read without allocating", 1);
        c.distinct_bytes(&pl);
        Ok(())
    });
    let ps = sendable();
    let n = x.n(12_000, 400_000);
    x.section("building", "every sendable message written into room of the caller's own, poll requests, configuration items encoded, decoded, iterated, configuration messages appended: nothing is allocated; non-trivial: distinct frames", n, |c| {
        let p = ps[c.idx as usize % ps.len()];
        let (inp, _) = gen_inputs(&mut c.rng, p, Scl::Wild);
        let mut w = Room { m: [0; 4096], n: 0 };
        let (r, t) = watch(|| c.call("create_packet", || gen_build::create(p.name, &inp, &mut w)));
        if r?.is_err() { return viol(format!("{}: writing fails with room enough", p.name), hex(&w)); }
        none(&format!("building {}", p.name), t, || format!("{:?}", inp))?;
        c.distinct_bytes(&w);
        let (a, b) = (c.rng.u8(), c.rng.u8());
        let (q, t) = watch(|| (UbxPacketRequest::request_for_unknown(a, b).into_packet_bytes(), UbxPacketRequest::request_for::<NavPvt>().into_packet_bytes()));
        none("building a poll request", t, || hex(&q.0))?;
        let vals: Vec<CfgVal> = (0..c.rng.below(20)).map(|_| { let k = c.rng.below(KEYS.len()); make(k, gen_val(&mut c.rng, &KEYS[k])) }).collect();
        let mut buf = [0u8; 512];
        let (r, t) = watch(|| c.call("configuration items", || {
            let n = CfgValIter::new(&mut buf, &vals).take(30).count();
            let k: usize = vals.iter().map(|v| v.len()).sum();
            let mut w = Room { m: [0; 4096], n: 0 };
            CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &vals }.extend_to(&mut w);
            (n, k, w.n)
        }));
        none("handling configuration items", t, || format!("{:?}", vals))?;
        let r = r?;
        if r.0 != vals.len() || r.2 < r.1 { return viol("configuration items get lost", format!("{:?} of {:?}", r, vals)); }
        c.count("messages built without allocating", 2);
        c.count("configuration items handled without allocating", vals.len() as u64);
        Ok(())
    });
    let n = x.n(60, 3_000);
    x.section("growable parser, long streams", "1-4 MB (thorough: up to 20) fed in pieces of 1-9000 bytes, drained or with iterations dropped early now and then: what the parser holds stays in proportion to the bytes waiting in it, not to the stream; dropping it gives everything back; non-trivial: distinct streams", n, |c| {
        let total = c.rng.range(1_000_000, if c.thorough { 20_000_000 } else { 4_000_000 });
        let mut piece = vec![];
        while piece.len() < 60_000 { if c.rng.chance(1, 3) { let l = c.rng.below(8177); let pl = c.rng.bytes(l); piece.extend(frame(c.rng.u8(), c.rng.u8(), &pl)); } else { piece.extend(rich(&mut c.rng)); } }
        let most = *c.rng.pick(&[60usize, 300, 2000, 9000]);
        let lazy = c.rng.bool();
        let (mut fed, mut at, mut n) = (0usize, 0usize, 0u64);
        let (mut waiting, mut worst, mut over) = (0usize, 0i64, None);
        let base = T.with(|t| t.get()).live;
        let (r, t) = watch(|| c.call("parsing", || {
            let mut p = Parser::default();
            let mut r = Rng::for_case(total as u64, "pieces", 0);
            while fed < total {
                let k = r.range(1, most).min(piece.len() - at);
                let take = if lazy && r.chance(1, 3) { r.below(2) } else { usize::MAX };
                {
                    let mut it = p.consume(&piece[at..at + k]);
                    let mut i = 0;
                    while i < take { match it.next() { None => break, Some(_) => n += 1 } i += 1; }
                }
                fed += k;
                at += k;
                if at == piece.len() { at = 0; }
                waiting = waiting.max(p.buffer_len() + k);
                let live = T.with(|t| t.get()).live - base;
                worst = worst.max(live);
                if live > 4 * (waiting as i64) + 65_536 && over.is_none() { over = Some((fed, live, waiting)); }
            }
        }));
        r?;
        if let Some((f, l, w)) = over { return viol("a growable parser holds memory out of proportion", format!("after {} bytes of a stream it holds {} bytes of memory although at most {} bytes ever waited", f, l, w)); }
        if t.live != 0 { return viol("memory is not given back", format!("{} bytes still held after the parser is gone", t.live)); }
        if t.peak > 4 * waiting as i64 + 65_536 { return viol("a growable parser holds memory out of proportion", format!("peak of {} bytes although at most {} bytes ever waited", t.peak, waiting)); }
        c.count("megabytes through growable parsers", fed as u64 >> 20);
        c.count("results from long streams", n);
        c.seen("largest memory held", worst as u64);
        c.distinct_bytes(&piece);
        if c.want_sample() { c.sample(format!("{} bytes in pieces of up to {}: {} results, at most {} bytes waiting, {} bytes of memory", fed, most, n, waiting, worst)); }
        Ok(())
    });
    let n = x.n(6_000, 200_000);
    x.section("everything is given back", "growable parsers, packets read and serialized, frames built into vectors, configuration messages: after the last is dropped the memory is that before; non-trivial: distinct streams", n, |c| {
        let s = rich(&mut c.rng);
        let cuts = chunks(&mut c.rng, s.len());
        let p = ps[c.idx as usize % ps.len()];
        let (inp, _) = gen_inputs(&mut c.rng, p, Scl::Representable);
        let vals: Vec<CfgVal> = (0..c.rng.below(20)).map(|_| { let k = c.rng.below(KEYS.len()); make(k, gen_val(&mut c.rng, &KEYS[k])) }).collect();
        let (r, t) = watch(|| c.call("parsing", || {
            let mut p = Parser::default();
            let mut at = 0;
            let mut out: Vec<String> = vec![];
            for k in &cuts {
                let mut it = p.consume(&s[at..at + k]);
                at += k;
                while let Some(r) = it.next() { out.push(match r { Ok(q) => serde_json::to_string(&q).unwrap_or_default(), Err(e) => e.to_string() }); }
            }
            out.len()
        }).map(|n| n as u64));
        let n = r?;
        if t.live != 0 { return viol("memory is not given back", format!("{} bytes after parsing {}", t.live, hex(&s))); }
        let (_, t) = watch(|| {
            let mut v = vec![];
            let _ = gen_build::create(p.name, &inp, &mut v);
            let b = CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &vals };
            v.extend(b.into_packet_vec());
        });
        if t.live != 0 { return viol("memory is not given back", format!("{} bytes after building {} and {:?}", t.live, p.name, vals)); }
        c.count("histories that gave everything back", 1);
        if n > 0 { c.distinct_bytes(&s); }
        Ok(())
    });
    x.require("packets read without allocating", 10_000);
    x.require("errors printed without allocating", 500);
    x.require("messages built without allocating", 10_000);
    x.require("megabytes through growable parsers", 50);
    x.require("histories that gave everything back", 5_000);
    x.finish()
}
