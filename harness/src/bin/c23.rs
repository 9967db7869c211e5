//! C23: bounded progress, and conforming use of any storage.
use std::cell::Cell;
use std::ops::{Index, Range};
use ublox::{FixedLinearBuffer, Parser, UnderlyingBuffer};
use vh::frames::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;

/// A conforming buffer that counts and checks every use. Freed bytes are poisoned.
#[derive(Default)]
struct Log { ops: Cell<u64>, reads: Cell<u64>, drains: Cell<u64>, extends: Cell<u64>, short: Cell<u64>, bad: std::cell::RefCell<Option<String>> }
impl Log {
    fn op(&self) { self.ops.set(self.ops.get() + 1) }
    fn wrong(&self, s: String) { let mut b = self.bad.borrow_mut(); if b.is_none() { *b = Some(s); } }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Layout { Compact, Lazy, Tail }
struct Strict<'a> { log: &'a Log, mem: Vec<u8>, start: usize, n: usize, cap: usize, layout: Layout, zero: u8 }
const POISON: [u8; 4] = [0xb5, 0x62, 0x05, 0x01];
impl<'a> Strict<'a> {
    fn new(log: &'a Log, cap: usize, layout: Layout, pre: &[u8]) -> Self {
        let room = if cap == usize::MAX { 64 } else { match layout { Layout::Lazy => 2 * cap + 3, _ => cap } };
        let mut s = Strict { log, mem: (0..room).map(|i| POISON[i % 4]).collect(), start: 0, n: 0, cap, layout, zero: 0 };
        s.put(pre);
        s
    }
    fn live(&self) -> &[u8] { &self.mem[self.start..self.start + self.n] }
    /// Moves the held bytes to where the layout wants them and poisons the rest.
    fn place(&mut self, start: usize) {
        let v = self.live().to_vec();
        for (i, x) in self.mem.iter_mut().enumerate() { *x = POISON[i % 4]; }
        self.start = start;
        self.mem[start..start + v.len()].copy_from_slice(&v);
    }
    fn put(&mut self, b: &[u8]) -> usize {
        let fit = b.len().min(self.cap - self.n);
        let need = self.n + fit;
        if need > self.mem.len() { let k = self.mem.len(); self.mem.extend((k..need + 64).map(|i| POISON[i % 4])); }
        match self.layout {
            Layout::Tail => { self.place(0); let l = self.mem.len(); let s = l - need; self.place(s); },
            _ => if self.start + need > self.mem.len() { self.place(0) },
        }
        let at = self.start + self.n;
        self.mem[at..at + fit].copy_from_slice(&b[..fit]);
        self.n = need;
        b.len() - fit
    }
}
impl<'a> Index<usize> for Strict<'a> {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        self.log.op(); self.log.reads.set(self.log.reads.get() + 1);
        if i >= self.n { self.log.wrong(format!("reads byte {} of {} held", i, self.n)); return &self.zero; }
        &self.live()[i]
    }
}
impl<'a> Index<Range<usize>> for Strict<'a> {
    type Output = [u8];
    fn index(&self, r: Range<usize>) -> &[u8] {
        self.log.op(); self.log.reads.set(self.log.reads.get() + 1);
        if r.start > r.end || r.end > self.n { self.log.wrong(format!("reads range {:?} of {} held", r, self.n)); panic!("contract: range {:?} of {}", r, self.n); }
        &self.live()[r]
    }
}
impl<'a> UnderlyingBuffer for Strict<'a> {
    fn clear(&mut self) { self.log.op(); self.n = 0; self.place(0) }
    fn len(&self) -> usize { self.log.op(); self.n }
    fn max_capacity(&self) -> usize { self.log.op(); self.cap }
    fn extend_from_slice(&mut self, b: &[u8]) -> usize {
        self.log.op(); self.log.extends.set(self.log.extends.get() + 1);
        let r = self.put(b);
        if r > 0 { self.log.short.set(self.log.short.get() + 1); }
        r
    }
    fn drain(&mut self, k: usize) {
        self.log.op(); self.log.drains.set(self.log.drains.get() + 1);
        if k > self.n { self.log.wrong(format!("removes {} of {} held bytes", k, self.n)); }
        let k = k.min(self.n);
        self.start += k;
        self.n -= k;
        if self.layout != Layout::Lazy { self.place(0) } else if self.n == 0 { self.start = 0 }
    }
}

/// Highest number of buffer operations allowed for one request with `n` bytes available.
fn limit(n: usize) -> u64 { 400 + 64 * n as u64 }

fn mk(e: String) -> Violation { Violation { sig: "unexpected error kind".into(), detail: e } }
/// The provided buffer's results for the same bytes: events per chunk and bytes then held.
fn reference<T: UnderlyingBuffer>(c: &Case, p: &mut Parser<T>, s: &[u8], cuts: &[usize], takes: &[usize]) -> Result<Vec<(Vec<Ev>, usize)>, Violation> {
    let mut out = vec![];
    let mut at = 0;
    for (n, t) in cuts.iter().zip(takes) {
        let chunk = &s[at..at + n];
        at += n;
        let mut ev = vec![];
        c.call("parsing", || take(p, chunk, *t, &mut ev))?.map_err(mk)?;
        out.push((ev, p.buffer_len()));
    }
    Ok(out)
}
fn case(c: &mut Case, pre: Vec<u8>, s: Vec<u8>, cap: Option<usize>, early: bool) -> Res {
    let mut cuts = chunks(&mut c.rng, s.len());
    cuts.push(0);
    let takes: Vec<usize> = cuts.iter().map(|_| if early && c.rng.chance(1, 2) { c.rng.below(3) } else { usize::MAX }).collect();
    let want = match cap {
        None => reference(c, &mut Parser::new(pre.clone()), &s, &cuts, &takes)?,
        Some(k) => {
            let mut mem = vec![0x62u8; k];
            let mut f = FixedLinearBuffer::new(&mut mem);
            f.extend_from_slice(&pre);
            reference(c, &mut Parser::new(f), &s, &cuts, &takes)?
        },
    };
    let log = Log::default();
    let layout = *c.rng.pick(&[Layout::Compact, Layout::Lazy, Layout::Tail]);
    let mut p = Parser::new(Strict::new(&log, cap.unwrap_or(usize::MAX), layout, &pre));
    let ctx = || format!("capacity {:?}, {:?}, prefilled with {}, chunks {}, stream {}", cap, layout, hex(&pre), crop(&format!("{:?}", cuts), 150), hex(&s));
    let ill = || -> Res { if let Some(b) = log.bad.borrow().as_ref() { return viol("parser uses a buffer outside its contract", format!("{}; {}", b, ctx())); } Ok(()) };
    let mut at = 0;
    let (mut results, mut fed) = (0usize, pre.len());
    for (i, (n, t)) in cuts.iter().zip(&takes).enumerate() {
        let chunk = &s[at..at + n];
        at += n;
        fed += n;
        let mut got = vec![];
        let avail = p.buffer_len() + n;
        let r: Result<Res, Violation> = c.call("parsing with a strict buffer", || {
            log.ops.set(0);
            let mut it = p.consume(chunk);
            let first = log.ops.get();
            if first > limit(avail) { return viol("unbounded work when data is given", format!("{} buffer operations with {} bytes available; {}", first, avail, ctx())); }
            for _ in 0..*t {
                log.ops.set(0);
                let e = it.next().map(event);
                let ops = log.ops.get();
                c.count("requests", 1);
                if ops > limit(avail) { return viol("unbounded work for one result", format!("{} buffer operations with {} bytes available; {}", ops, avail, ctx())); }
                if avail >= 64 { let q = ops * 10 / avail as u64; c.seen("operations per available byte (tenths)", q); }
                match e {
                    Some(e) => { got.push(e.map_err(mk)?); if 2 * (results + got.len()) > fed { return viol("more results than the stream can hold", format!("{} results from {} bytes; {}", results + got.len(), fed, ctx())); } },
                    None => {
                        for k in 0..3 { if let Some(e) = it.next() { return viol("a result after none was available", format!("request {} after the end returned {:?}; {}", k + 1, event(e).map(|e| short(&e)), ctx())); } }
                        c.count("ends re-asked", 1);
                        break;
                    },
                }
            }
            Ok(())
        });
        ill()?;
        r??;
        results += got.len();
        if got != want[i].0 { return viol("results differ from those with a provided buffer", format!("chunk {}: {:?} instead of {:?}; {}", i, got.iter().map(short).collect::<Vec<_>>(), want[i].0.iter().map(short).collect::<Vec<_>>(), ctx())); }
        ill()?;
        if p.buffer_len() != want[i].1 { return viol("bytes held differ from those with a provided buffer", format!("after chunk {}: {} instead of {}; {}", i, p.buffer_len(), want[i].1, ctx())); }
        c.count("results compared", got.len() as u64);
        // nothing available, then nothing given: still nothing, nothing changes
        if *t == usize::MAX && c.rng.chance(1, 3) {
            let mut more = vec![];
            c.call("parsing with a strict buffer", || take(&mut p, &[], usize::MAX, &mut more))?.map_err(mk)?;
            ill()?;
            if !more.is_empty() || p.buffer_len() != want[i].1 { return viol("results appear without more data", format!("{:?}, {} bytes held; {}", more.iter().map(short).collect::<Vec<_>>(), p.buffer_len(), ctx())); }
        }
    }
    ill()?;
    c.count("buffer reads watched", log.reads.get());
    c.count("buffer removals watched", log.drains.get());
    c.count("buffer appends watched", log.extends.get());
    c.count("appends that did not fit", log.short.get());
    if !pre.is_empty() { c.count("prefilled buffers", 1); }
    if results > 0 { c.distinct(mix(hash_bytes(&s) ^ hash_bytes(&pre) ^ cap.unwrap_or(0) as u64)); }
    if c.want_sample() { c.sample(crop(&format!("{} results; {}", results, ctx()), 400)); }
    Ok(())
}
fn prefill(r: &mut Rng, cap: Option<usize>) -> Vec<u8> {
    let mut v = match r.below(5) { 0 | 1 => vec![], 2 => { let n = r.below(40); r.bytes(n) }, 3 => { let n = r.below(60); dense(r, n) }, _ => stream(r, 2, false) };
    if let Some(k) = cap { v.truncate(k); }
    v
}

fn main() {
    let mut x = Ctx::new("C23");
    x.assumptions = vec!["the user's buffer stores exactly max_capacity bytes and copies the longest prefix that fits; capacities from 4 on (the documented minimum); bound on work: 64 buffer operations per available byte plus 400".into()];
    let n = x.n(20_000, 1_000_000);
    x.section("growable storage", "hostile streams with random chunks, early drops and prefilled contents; strict growable buffer in three layouts against Vec", n, |c| {
        let k = c.rng.range(1, 8);
        let s = stream(&mut c.rng, k, c.idx % 32 == 0);
        let pre = prefill(&mut c.rng, None);
        let e = c.rng.bool();
        case(c, pre, s, None, e)
    });
    let n = x.n(40_000, 2_000_000);
    x.section("bounded storage", "the same with capacities 4-300 (every small one), against the fixed buffer of the same capacity", n, |c| {
        let k = c.rng.range(1, 8);
        let s = if c.rng.chance(1, 3) { let n = c.rng.range(4, 160); dense(&mut c.rng, n) } else { stream(&mut c.rng, k, c.idx % 64 == 0) };
        let cap = match c.rng.below(4) { 0 => c.rng.range(4, 16), 1 => c.rng.range(8, 64), 2 => c.rng.range(30, 300), _ => (s.len() + c.rng.below(8)).max(4) };
        let pre = prefill(&mut c.rng, Some(cap));
        let e = c.rng.bool();
        case(c, pre, s, Some(cap), e)
    });
    let n = x.n(120, 2_500);
    x.section("adversarial work", "4-60 kB built to provoke repeated scanning (only first sync bytes, only sync pairs, oversized headers, nested announcements, nearly matching checksums), one piece or chunks; operations per request stay linear, results per stream bounded", n, |c| {
        let len = c.rng.range(4_000, if c.thorough { 60_000 } else { 16_000 });
        let kind = c.rng.below(8);
        let mut s: Vec<u8> = vec![];
        while s.len() < len {
            match kind {
                0 => s.push(0xb5),
                1 => s.extend([0xb5, 0x62]),
                2 => s.extend([0xb5, 0x62, 1, 2, 0xff, 0xff]),
                3 => s.push(0x62),
                4 => s.extend([0xb5, 0x62, 1, 2, 0, 0, 0, 0]),
                5 => { let l = c.rng.below(MAX) as u16; s.extend([0xb5, 0x62, 1, 2, l as u8, (l >> 8) as u8]) },
                6 => { s.push(0xb5); s.push(c.rng.u8()); },
                _ => { let n = c.rng.below(4); let b = c.rng.bytes(n); s.extend(b); s.push(*c.rng.pick(&[0xb5, 0x62])); },
            }
        }
        let log = Log::default();
        let mut p = Parser::new(Strict::new(&log, usize::MAX, Layout::Lazy, &[]));
        let mut total = 0u64;
        let pieces = if c.rng.bool() { 1 } else { c.rng.range(2, 12) };
        let step = s.len() / pieces + 1;
        let (mut results, mut worst) = (0u64, 0u64);
        for chunk in s.chunks(step) {
            let avail = p.buffer_len() + chunk.len();
            let r: Result<Res, Violation> = c.call("parsing with a strict buffer", || {
                let mut it = p.consume(chunk);
                loop {
                    log.ops.set(0);
                    let e = it.next();
                    let ops = log.ops.get();
                    total += ops;
                    worst = worst.max(ops * 10 / avail as u64);
                    if ops > limit(avail) { return viol("unbounded work for one result", format!("{} buffer operations with {} bytes available, stream kind {}", ops, avail, kind)); }
                    if e.is_none() { break; }
                    results += 1;
                    if 2 * results > s.len() as u64 { return viol("more results than the stream can hold", format!("{} results from {} bytes", results, s.len())); }
                }
                Ok(())
            });
            if let Some(b) = log.bad.borrow().as_ref() { return viol("parser uses a buffer outside its contract", format!("{}; stream kind {}", b, kind)); }
            r??;
        }
        c.count("adversarial results", results);
        c.seen("adversarial operations per byte (tenths), worst request", worst);
        c.distinct(mix(c.idx ^ (kind as u64) << 32));
        Ok(())
    });
    x.require("requests", 300_000);
    x.require("ends re-asked", 100_000);
    x.require("appends that did not fit", 200);
    x.require("prefilled buffers", 5_000);
    x.require("adversarial results", 1_000);
    x.finish()
}
