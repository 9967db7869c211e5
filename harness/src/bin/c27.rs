//! C27: parsers, packets and builders share nothing, on one thread or on several.
//! With VERIF_LIGHT=1 only the sections with threads run, with few cases: tools/check_c27.py does that under ThreadSanitizer.
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::Barrier;
use ublox::*;
use vh::build::*;
use vh::cfgv::*;
use vh::frames::*;
use vh::gen_build;
use vh::gen_cfg::*;
use vh::gen_obs::*;
use vh::model::*;
use vh::obs::{guarded, Val};
use vh::rng::*;
use vh::run::*;

/// Everything observable about a packet.
fn text(p: &PacketRef, json: bool) -> String {
    let o = observe(p);
    let mut t = format!("{:?} {} {:?} {:?}", p.class_and_msg_id(), hex(payload_of(p)), o.vals, guarded(|| Val::Str(format!("{:?}", p))));
    if json { t += &format!(" {:?}", guarded(|| Val::Str(serde_json::to_string(p).unwrap_or_else(|e| e.to_string())))); }
    t
}
type Between<'a> = &'a mut dyn FnMut();

/// A running iteration over the results of one chunk.
trait Live { fn step(&mut self, json: bool, between: Between) -> Option<String>; }
impl<B: UnderlyingBuffer> Live for ParserIter<'static, B> {
    fn step(&mut self, json: bool, between: Between) -> Option<String> {
        Some(match self.next()? {
            Err(e) => format!("{:?} {}", e, e),
            Ok(p) => {
                let a = text(&p, json);
                between();
                let b = text(&p, json);
                if a == b { a } else { format!("a packet changed while it was held: {} then {}", a, b) }
            },
        })
    }
}
trait AnyParser {
    /// # Safety: the result must be dropped before the parser, the chunk and any further use of the parser.
    unsafe fn open(&mut self, chunk: *const [u8]) -> Box<dyn Live>;
    fn held(&self) -> usize;
}
struct Owned<B: UnderlyingBuffer + 'static> { p: Parser<B>, _mem: Vec<u8> }
impl<B: UnderlyingBuffer + 'static> AnyParser for Owned<B> {
    unsafe fn open(&mut self, chunk: *const [u8]) -> Box<dyn Live> {
        let p: &'static mut Parser<B> = &mut *(&mut self.p as *mut _);
        Box::new(p.consume(&*chunk))
    }
    fn held(&self) -> usize { self.p.buffer_len() }
}
/// One parser with its stream and what is done with it: chunk lengths, each with the number of results taken.
struct Session { live: Option<Box<dyn Live>>, parser: Box<dyn AnyParser>, stream: Vec<u8>, plan: Vec<(usize, usize)>, at: usize, pos: usize, left: usize, json: bool, log: Vec<String>, results: u64 }
impl Session {
    fn new(seed: u64) -> Session {
        let mut r = Rng::for_case(seed, "session", 0);
        let n = r.range(1, 5);
        let stream = if r.chance(1, 4) { let n = r.range(10, 120); dense(&mut r, n) } else if r.bool() { stream(&mut r, n, false) } else {
            let mut v = vec![];
            for _ in 0..n { let (p, pl) = any_payload(&mut r, Fill::Corner); v.extend(frame(p.class, p.id, &pl)); }
            v
        };
        let mut cuts = chunks(&mut r, stream.len());
        if cuts.len() > 60 { cuts = vec![stream.len() / 3, stream.len() - stream.len() / 3, 0]; }
        let fixed = r.bool();
        let early = !fixed && r.bool();
        let plan = cuts.iter().map(|k| (*k, if early { r.below(4) } else { usize::MAX })).chain([(0, usize::MAX)]).collect();
        let parser: Box<dyn AnyParser> = if fixed {
            let mut mem = vec![0u8; r.range(8, 300)];
            let m: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr(), mem.len()) };
            Box::new(Owned { p: Parser::new(FixedLinearBuffer::new(m)), _mem: mem })
        } else { Box::new(Owned { p: Parser::new(Vec::<u8>::new()), _mem: vec![] }) };
        Session { live: None, parser, stream, plan, at: 0, pos: 0, left: 0, json: r.chance(1, 4), log: vec![], results: 0 }
    }
    /// One operation; false if all is done.
    fn advance(&mut self, between: Between) -> bool {
        if let Some(it) = &mut self.live {
            let r = if self.left > 0 { it.step(self.json, between) } else { None };
            match r {
                Some(t) => { self.left -= 1; self.results += 1; self.log.push(t); },
                None => { self.live = None; self.log.push(format!("held {}", self.parser.held())); },
            }
            return true;
        }
        match self.plan.get(self.at) {
            None => false,
            Some((n, k)) => {
                let chunk: *const [u8] = &self.stream[self.pos..self.pos + n];
                self.live = Some(unsafe { self.parser.open(chunk) });
                self.left = *k;
                self.pos += n;
                self.at += 1;
                true
            },
        }
    }
    fn finish(mut self) -> Vec<String> { while self.advance(&mut || {}) {} std::mem::take(&mut self.log) }
}
/// Advances randomly chosen sessions; while a packet of one is held, others go on.
fn some(slots: &RefCell<Vec<Option<Session>>>, rng: &RefCell<Rng>, depth: usize, n: &RefCell<(u64, u64)>) -> bool {
    let here: Vec<usize> = slots.borrow().iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
    if here.is_empty() { return false; }
    let i = *rng.borrow_mut().pick(&here);
    let mut s = slots.borrow_mut()[i].take().unwrap();
    let more = s.advance(&mut || {
        let k = if depth < 3 { rng.borrow_mut().below(4) } else { 0 };
        for _ in 0..k { if some(slots, rng, depth + 1, n) { n.borrow_mut().0 += 1; } }
    });
    n.borrow_mut().1 += 1;
    slots.borrow_mut()[i] = Some(s);
    more
}
/// What a writer or container does in the middle of a frame: it builds another one.
struct Nested<'a> { v: Vec<u8>, inner: &'a dyn Fn(usize) -> Vec<u8>, calls: usize, seen: Vec<Vec<u8>> }
impl MemWriter for Nested<'_> {
    type Error = ();
    fn reserve_allocate(&mut self, _: usize) -> Result<(), MemWriterError<()>> { self.seen.push((self.inner)(self.calls)); self.calls += 1; Ok(()) }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<()>> { self.v.extend(b); self.seen.push((self.inner)(self.calls)); self.calls += 1; Ok(()) }
}
impl Extend<u8> for Nested<'_> {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) { self.v.extend(it); self.seen.push((self.inner)(self.calls)); self.calls += 1; }
}
impl std::ops::Deref for Nested<'_> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.v } }
impl std::ops::DerefMut for Nested<'_> { fn deref_mut(&mut self) -> &mut [u8] { &mut self.v } }

fn values(r: &mut Rng) -> Vec<ublox::cfg_val::CfgVal> { (0..r.below(9)).map(|_| { let k = r.below(KEYS.len()); make(k, gen_val(r, &KEYS[k])) }).collect() }
/// One frame of either kind, determined by the seed.
fn built(seed: u64) -> Vec<u8> {
    let mut r = Rng::for_case(seed, "built", 0);
    if r.chance(1, 4) { let vals = values(&mut r); return CfgValSetBuilder { version: r.u8(), layers: CfgLayer::from_bits_truncate(r.u8()), reserved1: r.u32() as u16, cfg_data: &vals }.into_packet_vec(); }
    let p = *r.pick(&sendable());
    let (inp, _) = gen_inputs(&mut r, p, Scl::Representable);
    if r.bool() { return gen_build::bytes(p.name, &inp).0; }
    let mut v = vec![];
    let _ = gen_build::create(p.name, &inp, &mut v);
    v
}
/// A mixed piece of work, determined by the seed.
fn job(seed: u64) -> Vec<String> {
    let mut r = Rng::for_case(seed, "job", 0);
    let mut t = vec![];
    for _ in 0..r.range(1, 4) {
        match r.below(4) {
            0 | 1 => t.extend(Session::new(r.u64()).finish()),
            2 => for _ in 0..3 { t.push(hex(&built(r.u64()))) },
            _ => {
                let vals = values(&mut r);
                let mut buf = vec![0u8; 12 * vals.len()];
                t.extend(CfgValIter::new(&mut buf, &vals).take(20).map(|v| format!("{:?}", v)));
            },
        }
    }
    t
}
fn attempt(seed: u64) -> Vec<String> {
    std::panic::catch_unwind(|| job(seed)).unwrap_or_else(|_| { let m = take_panic(); if m.contains("harness:") { panic!("{}", m) } vec![format!("panic {}", m)] })
}
fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("step {} of {}: alone {:?}, together {:?}", i, a.len(), a.get(i).map(|x| crop(x, 300)), b.get(i).map(|x| crop(x, 300)))
}
/// Carries a value over to another thread whether or not its type says it may go.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> { fn get(&self) -> &T { &self.0 } fn take(self) -> T { self.0 } }

/// Whether a type may be sent to, and shared with, other threads, found out while running.
macro_rules! auto { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), {
    #[allow(dead_code)] trait NoSend { const V: bool = false; } impl<T: ?Sized> NoSend for T {}
    struct A<T: ?Sized>(PhantomData<T>); #[allow(dead_code)] impl<T: ?Sized + Send> A<T> { const V: bool = true; }
    <A<$t>>::V
}, {
    #[allow(dead_code)] trait NoSync { const V: bool = false; } impl<T: ?Sized> NoSync for T {}
    struct B<T: ?Sized>(PhantomData<T>); #[allow(dead_code)] impl<T: ?Sized + Sync> B<T> { const V: bool = true; }
    <B<$t>>::V
})),*] } }

fn main() {
    let mut x = Ctx::new("C27");
    let light = std::env::var("VERIF_LIGHT").is_ok();
    let lite = |n: u64, l: u64| if light { l } else { n };
    x.assumptions = vec!["interleavings are sampled: at the level of single results on one thread, of whatever the machine schedules on several".into()];
    if !light {
        let n = x.n(15_000, 500_000);
        x.section("interleaved parsers", "2-5 parsers (growable or fixed, hostile, dense or packet-rich streams, iterators dropped early) advanced result by result in random order on one thread, up to three packets of different parsers held at once; each transcript compared with the same parser alone; non-trivial: distinct transcripts with results", n, |c| {
            let seeds: Vec<u64> = (0..c.rng.range(2, 5)).map(|_| c.rng.u64()).collect();
            // some of them are twins doing the very same
            let seeds: Vec<u64> = seeds.iter().map(|s| if c.rng.chance(1, 5) { seeds[0] } else { *s }).collect();
            let order = c.rng.u64();
            let run = || seeds.iter().map(|s| c.call("parsing", || Session::new(*s).finish())).collect::<Result<Vec<_>, _>>();
            let first = if c.idx % 2 == 0 { Some(run()?) } else { None };
            let slots = RefCell::new(seeds.iter().map(|s| Some(Session::new(*s))).collect::<Vec<_>>());
            let rng = RefCell::new(Rng::for_case(order, "schedule", 0));
            let n = RefCell::new((0, 0));
            c.call("parsing", || { let mut idle = 0; while idle < 60 { if some(&slots, &rng, 0, &n) { idle = 0 } else { idle += 1 } } })?;
            let mut together = vec![];
            for s in slots.into_inner() { let s = s.unwrap(); together.push(c.call("parsing", || s.finish())?); }
            let alone = match first { Some(a) => a, None => run()? };
            for (i, (a, b)) in alone.iter().zip(&together).enumerate() {
                if a != b { return viol("a parser's results depend on other parsers", format!("parser {} of {}: {}", i, seeds.len(), diff(a, b))); }
                if a.len() > 2 { c.distinct(hash_bytes(format!("{:?}", a).as_bytes())); }
            }
            let n = n.into_inner();
            c.count("operations while a packet of another parser was held", n.0);
            c.count("operations interleaved", n.1);
            c.evals(seeds.len() as u64);
            if c.want_sample() { c.sample(format!("{} parsers, {} operations, {} while packets were held", seeds.len(), n.1, n.0)); }
            Ok(())
        });
        let n = x.n(15_000, 500_000);
        x.section("frames built inside frames", "a writer or container that builds other frames in the middle of every call, while a frame is streamed or appended to it; all of them equal those built alone; non-trivial: distinct outer frames", n, |c| {
            let inner: Vec<u64> = (0..3).map(|_| c.rng.u64()).collect();
            let make_inner = |k: usize| built(inner[k % 3]);
            let alone: Vec<Vec<u8>> = (0..3).map(|k| c.call("building", || make_inner(k))).collect::<Result<_, _>>()?;
            let mut w = Nested { v: vec![], inner: &make_inner, calls: 0, seen: vec![] };
            let want = if c.rng.chance(1, 4) {
                let vals = values(&mut c.rng);
                let b = || CfgValSetBuilder { version: 1, layers: CfgLayer::RAM, reserved1: 7, cfg_data: &vals };
                let want = c.call("building", || b().into_packet_vec())?;
                c.call("extend_to", || b().extend_to(&mut w))?;
                want
            } else {
                let p = *c.rng.pick(&sendable());
                let (inp, _) = gen_inputs(&mut c.rng, p, Scl::Representable);
                let want = c.call("building", || gen_build::bytes(p.name, &inp).0)?;
                if c.call("create_packet", || gen_build::create(p.name, &inp, &mut w))?.is_err() { return viol("writing fails without a failing writer", p.name); }
                want
            };
            if w.v != want { return viol("a frame depends on other frames built meanwhile", format!("{} expected {}", hex(&w.v), hex(&want))); }
            for (k, f) in w.seen.iter().enumerate() { if *f != alone[k % 3] { return viol("a frame built inside another one differs", format!("{} expected {}", hex(f), hex(&alone[k % 3]))); } }
            c.count("frames built inside others", w.seen.len() as u64);
            c.distinct_bytes(&want);
            Ok(())
        });
        let n = x.n(20_000, 600_000);
        x.section("packets read again", "every packet type: all of its values, texts and serializations read twice, with other packets read in between; non-trivial: distinct payloads", n, |c| {
            let (p, pl) = any_payload(&mut c.rng, Fill::Corner);
            let (q, ql) = any_payload(&mut c.rng, Fill::Random);
            let other = c.rng.u64();
            let r = with_packet(c, p.class, p.id, &pl, |a| {
                let first = text(a, true);
                let mut z = Parser::default();
                let f = frame(q.class, q.id, &ql);
                let mut it = z.consume(&f);
                if let Some(Ok(b)) = it.next() { let _ = text(&b, true); }
                drop(it);
                let _ = built(other);
                (first, text(a, true))
            })?;
            if r.0 != r.1 { return viol("reading a packet again gives something else", format!("{}: {} then {}", p.name, crop(&r.0, 400), crop(&r.1, 400))); }
            c.count("packets read twice", 1);
            c.distinct_bytes(&pl);
            Ok(())
        });
        x.section("types that may cross threads", "parsers, iterations, packets, records, errors, builders, settings: all are Send and Sync", 1, |c| {
            let v = auto!(Parser<Vec<u8>>, Parser<FixedLinearBuffer<'static>>, ParserIter<'static, Vec<u8>>, ParserIter<'static, FixedLinearBuffer<'static>>, FixedLinearBuffer<'static>,
                PacketRef<'static>, UbxUnknownPacketRef<'static>, UbxPacketRequest, ParserError, DateTimeError, MemWriterError<u8>, Position, PositionECEF, Velocity,
                NavSatIter<'static>, NavSatSvInfoRef<'static>, NavSatSvFlags, FixStatusInfo, RxmRawxInfoIter<'static>, RxmRawxInfoRef<'static>, MonVerExtensionIter<'static>, DwrdIter<'static>, EsfMeasDataIter<'static>, EsfRawDataIter<'static>,
                TimTpFlags, TimTpRefInfo, TimTm2Flags, ublox::cfg_val::CfgVal, CfgValIter<'static>, CfgValSetBuilder<'static>, UartMode, CfgItfmConfig, CfgItfmConfig2, ResetMode, CfgLayer,
                CfgOdoBuilder, CfgItfmBuilder, CfgInfBuilder, AidIniBuilder, CfgRstBuilder, CfgAntBuilder, CfgTp5Builder, CfgTmode2Builder, CfgTmode3Builder, CfgPrtI2cBuilder, CfgPrtUartBuilder, CfgPrtSpiBuilder,
                CfgRateBuilder, CfgMsgSinglePortBuilder, CfgMsgAllPortsBuilder, CfgNav5Builder, CfgNavX5Builder, NavResetOdoBuilder);
            if auto!(std::rc::Rc<u8>)[0] != ("std::rc::Rc<u8>", false, false) || auto!(std::cell::Cell<u8>)[0].2 { panic!("harness: the probe for auto traits does not work"); }
            c.count("types asked", v.len() as u64);
            for (t, send, sync) in v {
                if !send { return viol(format!("{} may not be sent to another thread", t), "its type is not Send"); }
                if !sync { return viol(format!("{} may not be shared with another thread", t), "its type is not Sync"); }
                c.distinct_bytes(t.as_bytes());
            }
            Ok(())
        });
        x.require("operations while a packet of another parser was held", 50_000);
        x.require("frames built inside others", 20_000);
        x.require("packets read twice", 15_000);
    }
    let n = lite(x.n(2_500, 80_000), if x.thorough { 6_000 } else { 260 });
    x.section("threads at work", "2-6 threads started together, each parsing, reading, building and encoding its own work (some the very same work); each result compared with the same work done alone before or after; non-trivial: distinct results", n, |c| {
        let k = c.rng.range(2, 6);
        let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
        let seeds: Vec<u64> = seeds.iter().map(|s| if c.rng.chance(1, 4) { seeds[0] } else { *s }).collect();
        let run = || seeds.iter().map(|s| attempt(*s)).collect::<Vec<_>>();
        let first = if c.idx % 2 == 0 { Some(run()) } else { None };
        let start = Barrier::new(k);
        let together: Vec<Vec<String>> = std::thread::scope(|sc| {
            let h: Vec<_> = seeds.iter().map(|s| { let start = &start; sc.spawn(move || { start.wait(); attempt(*s) }) }).collect();
            h.into_iter().map(|h| h.join().expect("harness: thread")).collect()
        });
        let alone = first.unwrap_or_else(run);
        for (a, b) in alone.iter().zip(&together) {
            if a != b { return viol("results differ when other threads are at work", diff(a, b)); }
            c.distinct(hash_bytes(format!("{:?}", a).as_bytes()));
            c.count("results compared", a.len() as u64);
        }
        c.count("threads at work", k as u64);
        if c.want_sample() { c.sample(format!("{} threads, {} results", k, alone.iter().map(|a| a.len()).sum::<usize>())); }
        Ok(())
    });
    let n = lite(x.n(2_500, 80_000), if x.thorough { 6_000 } else { 260 });
    x.section("one packet, several threads", "a packet of any type read completely by 2-4 threads at once; all see what one sees alone; non-trivial: distinct payloads", n, |c| {
        let (p, pl) = any_payload(&mut c.rng, Fill::Corner);
        let k = c.rng.range(2, 4);
        let r = with_packet(c, p.class, p.id, &pl, |q| {
            let start = Barrier::new(k);
            let f = Force(q);
            let all: Vec<String> = std::thread::scope(|sc| {
                let h: Vec<_> = (0..k).map(|_| { let (start, f) = (&start, &f); sc.spawn(move || { start.wait(); text(f.get(), true) }) }).collect();
                h.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
            });
            (text(q, true), all)
        })?;
        for t in &r.1 { if *t != r.0 { return viol("a packet read by several threads gives different values", format!("{}: {} and {}", p.name, crop(&r.0, 300), crop(t, 300))); } }
        c.count("packets shared by threads", 1);
        c.distinct_bytes(&pl);
        Ok(())
    });
    let n = lite(x.n(1_200, 40_000), if x.thorough { 3_000 } else { 130 });
    x.section("a parser on the move", "a parser handed from thread to thread between its chunks; its transcript is that of a parser that stays; non-trivial: distinct transcripts", n, |c| {
        let seed = c.rng.u64();
        let alone = c.call("parsing", || Session::new(seed).finish())?;
        let mut s = Session::new(seed);
        let mut hops = 0;
        loop {
            let f = Force((s, true));
            let (t, more) = std::thread::scope(|sc| sc.spawn(move || {
                let (mut s, mut more) = f.take();
                // one chunk with all the results taken from it
                loop { more = s.advance(&mut || {}) && more; if s.live.is_none() || !more { break } }
                Force((s, more))
            }).join().map(|f| f.take())).map_err(|_| Violation { sig: "panic on another thread".into(), detail: format!("session {}", seed) })?;
            s = t;
            hops += 1;
            if !more { break }
        }
        let moved = s.finish();
        if moved != alone { return viol("a parser handed to another thread gives other results", diff(&alone, &moved)); }
        c.count("moves between threads", hops);
        c.distinct(hash_bytes(format!("{:?}", alone).as_bytes()));
        Ok(())
    });
    x.require("packets shared by threads", lite(2_000, 200));
    x.require("threads at work", lite(4_000, 500));
    x.require("moves between threads", lite(2_000, 200));
    x.finish()
}
