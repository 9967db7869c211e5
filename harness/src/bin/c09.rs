//! C09, first layer: public operations on caller memory that ends (or starts) at an inaccessible page. An access
//! beyond it kills the process (the driver reports the signal); a write beside the buffer slice shows in the guard
//! bytes; a read of memory never written shows as a difference between two runs that differ only in what the caller's
//! memory held before. The other layers (AddressSanitizer, Miri) run the `probe` binary (see tools/check_c09.py).
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ublox::*;
use vh::cfgv::*;
use vh::frames::*;
use vh::gen_cfg::*;
use vh::gen_obs::observe;
use vh::rng::*;
use vh::run::*;

const PAGE: usize = 4096;
const PAGES: usize = 34;
/// A mapping with an inaccessible page on either side.
struct Arena(*mut u8);
impl Arena {
    fn new() -> Self {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), (PAGES + 2) * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize != -1, "harness: mmap");
            assert!(libc::mprotect(p.add(PAGE) as *mut _, PAGES * PAGE, libc::PROT_READ | libc::PROT_WRITE) == 0, "harness: mprotect");
            Arena(p.add(PAGE))
        }
    }
    /// `n` bytes at the end (or start) of the accessible memory, and up to 64 guard bytes on the other side.
    fn place(&mut self, n: usize, at_end: bool) -> (&mut [u8], &mut [u8]) {
        assert!(n + 64 <= PAGES * PAGE, "harness: arena too small");
        let all = unsafe { std::slice::from_raw_parts_mut(self.0, PAGES * PAGE) };
        if at_end { let k = all.len() - n; let (a, b) = all.split_at_mut(k); (b, &mut a[k - 64..]) } else { let (a, b) = all.split_at_mut(n); (a, &mut b[..64]) }
    }
}
thread_local! { static ARENAS: RefCell<Vec<Arena>> = RefCell::new((0..2).map(|_| Arena::new()).collect()); }

fn kept(g: &[u8], what: &str) -> Res { if g.iter().all(|b| *b == 0xc3) { Ok(()) } else { viol("bytes beside the buffer slice are overwritten", format!("{}: guard bytes {}", what, hex(g))) } }

fn run_stream(c: &Case, s: &[u8], cuts: &[usize], takes: &[usize], cap: usize, buf_end: bool, in_end: bool, fill: u8) -> Result<Vec<u64>, Violation> {
    ARENAS.with(|a| {
        let mut a = a.borrow_mut();
        let (x, y) = a.split_at_mut(1);
        let (mem, g) = x[0].place(cap, buf_end);
        g.fill(0xc3);
        for (i, b) in mem.iter_mut().enumerate() { *b = match fill { 0 => 0, 1 => [0xb5, 0x62, 5, 1, 2, 0][i % 6], _ => 0xff } }
        let mut t = vec![];
        {
            let mut p = Parser::new(FixedLinearBuffer::new(mem));
            let mut at = 0;
            for (n, k) in cuts.iter().zip(takes) {
                let (chunk, g) = y[0].place(*n, in_end);
                chunk.copy_from_slice(&s[at..at + n]);
                g.fill(0xc3);
                at += n;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut it = p.consume(chunk);
                    for _ in 0..*k {
                        match it.next() {
                            None => break,
                            Some(Ok(q)) => {
                                let v = observe(&q);
                                t.push(hash_bytes(&v.bytes) ^ hash_bytes(format!("{:?}", v.vals).as_bytes()));
                                if t.len() % 3 == 0 { t.push(hash_bytes(format!("{:?}", q).as_bytes())); }
                                c.count("packets read in guarded memory", 1);
                            },
                            Some(Err(e)) => { t.push(hash_bytes(format!("{:?}", e).as_bytes())); c.count("errors in guarded memory", 1); },
                        }
                    }
                }));
                if r.is_err() { let m = take_panic(); if m.contains("harness:") { panic!("harness: {}", m); } t.push(7); }
                t.push(p.buffer_len() as u64);
                c.count("chunks consumed from guarded memory", 1);
            }
        }
        kept(g, &format!("capacity {}, buffer {} of its pages", cap, if buf_end { "at the end" } else { "at the start" }))?;
        Ok(t)
    })
}

fn main() {
    let mut x = Ctx::new("C09");
    x.assumptions = vec!["capacities from 4 bytes in parser histories, from 0 in buffer histories".into(), "reads of memory never written are seen when they influence a result".into()];
    let n = x.n(60_000, 6_000_000);
    x.section("parser over guarded memory", "random streams, chunkings and early drops; buffer slice and input chunk flush with inaccessible pages at either end, guard bytes on the open side; each history runs with two different earlier contents of the caller's memory", n, |c| {
        let s = match c.idx % 4 { 0 => { let n = c.rng.range(1, 300); dense(&mut c.rng, n) }, 1 => { let n = c.rng.range(1, 4); stream(&mut c.rng, n, true) }, _ => { let n = c.rng.range(1, 6); stream(&mut c.rng, n, false) } };
        let cuts = chunks(&mut c.rng, s.len());
        let early = c.rng.chance(1, 3);
        let takes: Vec<usize> = cuts.iter().map(|_| if early && c.rng.bool() { c.rng.below(3) } else { usize::MAX }).collect();
        let cap = match c.rng.below(4) { 0 => c.rng.range(4, 40), 1 => c.rng.range(4, 300), 2 => c.rng.range(100, 1500), _ => 9000 };
        if s.len() > 100_000 { return Ok(()); }
        let (be, ie) = (c.rng.chance(3, 4), c.rng.chance(3, 4));
        let (f, g) = *c.rng.pick(&[(0u8, 1u8), (1, 2), (0, 2)]);
        let a = run_stream(c, &s, &cuts, &takes, cap, be, ie, f)?;
        let b = run_stream(c, &s, &cuts, &takes, cap, be, ie, g)?;
        if a != b { return viol("results depend on what the caller's memory held before", format!("capacity {}, chunks {:?}, stream {}: traces differ at event {}", cap, cuts, hex(&s), (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap())); }
        c.count("histories", 1);
        c.seen("capacities", cap as u64);
        if a.len() > cuts.len() { c.distinct(hash_bytes(&s) ^ mix(cap as u64) ^ cuts.len() as u64); }
        if c.want_sample() { c.sample(format!("{} bytes in {} chunks, capacity {}: {} events, identical for both earlier contents, guards intact", s.len(), cuts.len(), cap, a.len())); }
        Ok(())
    });
    let n = x.n(80_000, 8_000_000);
    x.section("buffer over guarded memory", "histories of append, remove (also more than held), clear, search, index and range on a fixed buffer flush with an inaccessible page, for two earlier contents of the memory", n, |c| {
        let cap = match c.rng.below(3) { 0 => c.rng.below(10), 1 => c.rng.below(80), _ => c.rng.below(5000) };
        let end = c.rng.chance(3, 4);
        let seed = c.rng.u64();
        let steps = c.rng.range(1, 40);
        let mut traces = vec![];
        for fill in [0u8, 0x62] {
            let mut r = Rng::for_case(seed, "ops", 0);
            let t = ARENAS.with(|a| -> Result<Vec<u64>, Violation> {
                let mut a = a.borrow_mut();
                let (x, y) = a.split_at_mut(1);
                let (mem, g) = x[0].place(cap, end);
                g.fill(0xc3);
                mem.fill(fill);
                let mut t = vec![];
                {
                    let mut b = FixedLinearBuffer::new(mem);
                    for _ in 0..steps {
                        let (i, j) = (r.below(cap + 3), r.below(cap + 3));
                        let n = if r.bool() { r.below(9) } else { r.below(cap + 20) };
                        t.push(match r.below(8) {
                            0 | 1 | 2 => { let (inp, _) = y[0].place(n, true); for k in inp.iter_mut() { *k = *r.pick(&[0xb5u8, 0x62, 9, 0]); } b.extend_from_slice(inp) as u64 },
                            3 | 4 => { b.drain(n); c.count("removals", 1); n as u64 },
                            5 => if r.chance(1, 6) { b.clear(); 1 } else { b.find(*r.pick(&[0xb5u8, 0x62, 9, 1])).map_or(u64::MAX, |v| v as u64) },
                            6 => catch_unwind(AssertUnwindSafe(|| b[i] as u64)).unwrap_or_else(|_| { take_panic(); 1 << 40 }),
                            _ => catch_unwind(AssertUnwindSafe(|| hash_bytes(&b[i..j]))).unwrap_or_else(|_| { take_panic(); 1 << 40 }),
                        });
                        t.push(b.len() as u64);
                        c.count("operations", 1);
                    }
                    let n = b.len();
                    t.push(hash_bytes(&b[0..n]));
                }
                kept(g, &format!("capacity {}", cap))?;
                Ok(t)
            })?;
            traces.push(t);
        }
        if traces[0] != traces[1] { return viol("buffer contents depend on what the caller's memory held before", format!("capacity {}, {} steps", cap, steps)); }
        c.distinct(traces[0].iter().fold(cap as u64, |a, v| mix(a ^ v)));
        Ok(())
    });
    let n = x.n(60_000, 4_000_000);
    x.section("configuration values in guarded memory", "values encoded into slices of exactly, more or less than their size, flush with an inaccessible page; the iterator over exactly sized memory", n, |c| {
        let k = c.rng.below(10);
        let vals: Vec<_> = (0..k).map(|_| { let i = c.rng.below(KEYS.len()); make(i, gen_val(&mut c.rng, &KEYS[i])) }).collect();
        let total: usize = vals.iter().map(|v| v.len()).sum();
        let end = c.rng.chance(3, 4);
        let short = c.rng.chance(1, 4);
        ARENAS.with(|a| -> Res {
            let mut a = a.borrow_mut();
            for v in &vals {
                let n = if short { c.rng.below(v.len()) } else { v.len() };
                let (m, g) = a[0].place(n, end);
                g.fill(0xc3);
                // too little memory may be refused by a panic, never by writing elsewhere
                if catch_unwind(AssertUnwindSafe(|| { v.write_to(m); })).is_err() { take_panic(); c.count("refused", 1); } else { c.count("values written", 1); }
                kept(g, &format!("writing {:?} into {} bytes", v, n))?;
            }
            let n = if short { c.rng.below(total + 1) } else { total };
            let (m, g) = a[0].place(n, end);
            g.fill(0xc3);
            let _ = catch_unwind(AssertUnwindSafe(|| { for b in CfgValIter::new(m, &vals) { std::hint::black_box(b); } })).map_err(|_| take_panic());
            kept(g, "iterating over encoded values")?;
            c.distinct(mix(total as u64) ^ hash_bytes(m));
            Ok(())
        })
    });
    x.require("packets read in guarded memory", 10_000);
    x.require("removals", 10_000);
    x.require("values written", 1000);
    x.finish()
}
