//! C22: the provided buffers are bounded FIFO byte queues.
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ublox::{FixedLinearBuffer, Parser, UnderlyingBuffer};
use vh::frames::*;
use vh::rng::*;
use vh::run::*;

#[derive(Clone, Debug)]
enum Op { Extend(Vec<u8>), Drain(usize), Clear, Find(u8), Index(usize), Range(usize, usize), Scan }
struct M { q: VecDeque<u8>, cap: Option<usize> }

fn refused<T>(f: impl FnOnce() -> T) -> Result<T, ()> { let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()); if r.is_err() { take_panic(); } r }

/// One operation on the real buffer and the queue model; Err(description) on any difference.
fn step<B: UnderlyingBuffer>(c: &Case, b: &mut B, m: &mut M, op: &Op) -> Result<(), (String, String)> {
    let e = |s: &str, d: String| Err((s.to_string(), d));
    let held: Vec<u8> = m.q.iter().copied().collect();
    match op {
        Op::Extend(x) => {
            let fit = m.cap.map_or(x.len(), |k| x.len().min(k - m.q.len()));
            let un = match refused(|| b.extend_from_slice(x)) { Ok(u) => u, Err(()) => return e("appending panics", format!("{} bytes to {} held", x.len(), held.len())) };
            m.q.extend(&x[..fit]);
            if un != x.len() - fit { return e("wrong number of bytes reported as not stored", format!("appended {} bytes to {} held with capacity {:?}: reported {} not stored, expected {}", x.len(), held.len(), m.cap, un, x.len() - fit)); }
            if fit < x.len() { c.count("appends that did not fit", 1); }
        },
        Op::Drain(n) => {
            if refused(|| b.drain(*n)).is_err() { return e("removing panics", format!("{} of {} held", n, held.len())); }
            if *n > held.len() { c.count("removals of more than held", 1); }
            m.q.drain(..(*n).min(held.len()));
        },
        Op::Clear => { b.clear(); m.q.clear(); },
        Op::Find(v) => {
            let (got, want) = (b.find(*v), held.iter().position(|x| x == v));
            if got != want { return e("wrong position found", format!("searching {:#x} in {}: {:?}, expected {:?}", v, hex(&held), got, want)); }
            c.count(if got.is_some() { "searches that hit" } else { "searches that miss" }, 1);
        },
        Op::Index(i) => match (refused(|| b[*i]), held.get(*i)) {
            (Ok(g), Some(w)) if g == *w => c.count("bytes read", 1),
            (Err(()), None) => c.count("accesses refused", 1),
            (Ok(g), None) => return e("reading beyond the held bytes is not refused", format!("index {} with {} bytes held returned {:#x}", i, held.len(), g)),
            (g, w) => return e("wrong byte read", format!("index {}: {:?}, expected {:?} (held {})", i, g, w, hex(&held))),
        },
        Op::Range(i, j) => {
            let want = if i <= j && *j <= held.len() { Some(held[*i..*j].to_vec()) } else { None };
            match (refused(|| b[*i..*j].to_vec()), want) {
                (Ok(g), Some(w)) if g == w => c.count("ranges read", 1),
                (Err(()), None) => c.count("accesses refused", 1),
                (Ok(g), None) => return e("reading a range beyond the held bytes is not refused", format!("range {}..{} with {} bytes held returned {}", i, j, held.len(), hex(&g))),
                (g, w) => return e("wrong bytes read", format!("range {}..{}: {:?}, expected {:?}", i, j, g, w)),
            }
        },
        Op::Scan => {},
    }
    // the whole observable state
    let held: Vec<u8> = m.q.iter().copied().collect();
    if b.len() != held.len() { return e("wrong length", format!("{} after {:?}, expected {}", b.len(), op, held.len())); }
    if b.is_empty() != held.is_empty() { return e("wrong emptiness", format!("{} with {} bytes held", b.is_empty(), held.len())); }
    let mc = b.max_capacity();
    match m.cap { Some(k) if mc != k => return e("wrong capacity", format!("{}, buffer slice has {}", mc, k)), None if mc < held.len() => return e("wrong capacity", format!("{} with {} held", mc, held.len())), _ => {} }
    match refused(|| b[0..held.len()].to_vec()) {
        Ok(g) if g == held => {},
        g => return e("contents differ from the queue", format!("after {:?}: {:?}, expected {}", op, g.map(|x| hex(&x)), hex(&held))),
    }
    if matches!(op, Op::Scan) { for (i, w) in held.iter().enumerate() { if refused(|| b[i]) != Ok(*w) { return e("wrong byte read", format!("index {}", i)); } } }
    c.count("operations compared", 1);
    Ok(())
}
fn gen_op(r: &mut Rng, m: &M, growable: bool) -> Op {
    let (n, cap) = (m.q.len(), m.cap.unwrap_or(m.q.len() + 40));
    let free = cap - n.min(cap);
    let byte = |r: &mut Rng| if r.bool() { *r.pick(&[0xb5u8, 0x62, 0, 0xff]) } else { r.u8() };
    match r.below(13) {
        0..=3 => { let k = match r.below(6) { 0 => 0, 1 => free, 2 => free + r.below(5), 3 => cap + r.below(9), _ => r.below(free + 3) }; let k = k.min(20_000); Op::Extend((0..k).map(|_| byte(r)).collect()) },
        4..=6 => { let d = match r.below(6) { 0 => 0, 1 => n, 2 => n.saturating_sub(1), 3 => n + r.range(1, 4), _ => r.below(n + 1) }; let d = if r.chance(1, 60) { *r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX - n]) } else { d }; Op::Drain(if growable { d.min(n) } else { d }) },
        7 => if r.chance(1, 4) { Op::Clear } else { Op::Scan },
        8 => Op::Find(byte(r)),
        9 | 10 => Op::Index(match r.below(5) { 0 => n, 1 => n + r.below(4), 2 => cap, _ => r.below(n.max(1)) }),
        11 if r.chance(1, 8) => { let i = r.below(n + 2); Op::Range(i, r.below(n + 3)) },
        _ => { let i = r.below(n + 1); let j = match r.below(5) { 0 => n, 1 => n + r.range(1, 3), _ => r.range(i, n) }; Op::Range(i, j.max(i)) },
    }
}
/// A user's buffer with only the required methods.
struct Plain(Vec<u8>);
impl<I: std::slice::SliceIndex<[u8]>> std::ops::Index<I> for Plain { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
impl UnderlyingBuffer for Plain {
    fn clear(&mut self) { self.0.clear() }
    fn len(&self) -> usize { self.0.len() }
    fn max_capacity(&self) -> usize { usize::MAX }
    fn extend_from_slice(&mut self, o: &[u8]) -> usize { self.0.extend_from_slice(o); 0 }
    fn drain(&mut self, n: usize) { self.0.drain(..n); }
}
const PAT: u8 = 0xC3;
fn fixed<T>(c: &mut Case, cap: usize, f: impl FnOnce(&mut Case, &mut FixedLinearBuffer, &mut M) -> Result<T, (String, String)>) -> Result<T, Violation> {
    let g = 1 + c.rng.below(24);
    let mut mem = vec![PAT; cap + 2 * g];
    for x in &mut mem[g..g + cap] { *x = *c.rng.pick(&[0xb5, 0x62, 0x11]); }
    let r = {
        let mut b = FixedLinearBuffer::new(&mut mem[g..g + cap]);
        let mut m = M { q: VecDeque::new(), cap: Some(cap) };
        f(c, &mut b, &mut m)
    };
    if mem[..g].iter().chain(&mem[g + cap..]).any(|x| *x != PAT) { return viol("bytes outside the buffer slice changed", format!("capacity {}", cap)); }
    r.map_err(|(s, d)| Violation { sig: format!("fixed buffer: {}", s), detail: format!("{} (capacity {})", d, cap) })
}
fn history<B: UnderlyingBuffer>(c: &mut Case, b: &mut B, m: &mut M, n: usize) -> Result<(), (String, String)> {
    let growable = m.cap.is_none();
    let mut ops = vec![];
    let mut h = mix(m.cap.unwrap_or(usize::MAX) as u64);
    for _ in 0..n {
        let op = gen_op(&mut c.rng, m, growable);
        h = mix(h ^ hash_bytes(format!("{:?}", op).as_bytes()));
        ops.push(op);
        let op = ops.last().unwrap();
        step(c, b, m, op).map_err(|(s, d)| (s, format!("{}; operation {} of the history {}", d, ops.len(), crop(&format!("{:?}", &ops[ops.len().saturating_sub(12)..]), 900))))?;
        c.seen("(capacity, length) states", mix(m.cap.unwrap_or(1 << 40) as u64) ^ m.q.len() as u64);
    }
    c.distinct(h);
    if c.want_sample() { c.sample(crop(&format!("capacity {:?}: {:?}", m.cap, ops), 400)); }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C22");
    x.boost = 2;
    x.assumptions = vec!["the growable buffer is never asked to remove more than it holds (the storage contract)".into()];
    let n = x.n(40_000, 2_000_000);
    x.section("fixed histories", "20-60 random operations on a fixed buffer of capacity 0-64 (sometimes up to 9000) inside guard bytes, compared after every operation with a queue", n, |c| {
        let cap = match c.rng.below(20) { 0 => 0, 1 => 1, 2 => c.rng.range(65, 600), 3 if c.idx % 8 == 0 => c.rng.range(600, 9000), _ => c.rng.range(1, 64) };
        let k = c.rng.range(20, 60);
        fixed(c, cap, |c, b, m| history(c, b, m, k))
    });
    let n = x.n(15_000, 600_000);
    x.section("growable histories", "the same on the growable buffer", n, |c| {
        let mut v = Vec::with_capacity(c.rng.below(40));
        let mut m = M { q: VecDeque::new(), cap: None };
        let k = c.rng.range(20, 60);
        history::<Vec<u8>>(c, &mut v, &mut m, k).map_err(|(s, d)| Violation { sig: format!("growable buffer: {}", s), detail: d })
    });
    // every history of a small alphabet
    let depth = if x.thorough { 7u32 } else { 5 };
    let caps = 6u64;
    // alphabet: append 0..=4, remove 0..=5, clear
    let a = 12u64;
    x.section("all short histories", "every sequence of 5 (thorough: 7) operations from {append 0-4 bytes, remove 0-5 bytes, clear} on capacities 0-5, with every index and range read after every step", caps * a.pow(3), |c| {
        let cap = (c.idx % caps) as usize;
        let head = c.idx / caps;
        let tails = a.pow(depth - 3);
        for t in 0..tails {
            fixed(c, cap, |c, b, m| {
                let mut k = head * tails + t;
                let mut next = 1u8;
                for s in 0..depth {
                    let op = match k % a { o @ 0..=4 => { let v = (0..o).map(|i| next.wrapping_add(i as u8)).collect(); next = next.wrapping_add(o as u8); Op::Extend(v) }, o @ 5..=10 => Op::Drain(o as usize - 5), _ => Op::Clear };
                    k /= a;
                    step(c, b, m, &op)?;
                    if s + 1 == depth && t % 4 == 0 {
                        for i in 0..cap + 2 { step(c, b, m, &Op::Index(i))?; step(c, b, m, &Op::Find(next.wrapping_sub(i as u8)))?; }
                        for i in 0..=m.q.len() { for j in i..m.q.len() + 2 { step(c, b, m, &Op::Range(i, j))?; } }
                    }
                }
                Ok(())
            })?;
        }
        c.distinct(mix(c.idx));
        c.evals(tails);
        Ok(())
    });
    let n = if x.thorough { 3_000 } else { 40 };
    x.section("large buffers", "4-10 operations on fixed and growable buffers of up to 200 kB: appends, removals and searches around 255, 256, 32768, 65535, 65536 and 131072 bytes, compared with a queue", n, |c| {
        const E: [usize; 8] = [255, 256, 32_767, 32_768, 65_535, 65_536, 131_072, 196_608];
        let near = |r: &mut Rng, max: usize| -> usize { let v = match r.below(4) { 0 => r.below(max + 1), 1 => max - r.below(max.min(9) + 1), _ => (*r.pick(&E) + r.below(5)).saturating_sub(2) }; v.min(max) };
        let grow = c.idx % 2 == 1;
        let cap = 200_000 - c.rng.below(3_000);
        let k = c.rng.range(4, 10);
        let body = |c: &mut Case, m: &mut M, f: &mut dyn FnMut(&mut Case, &mut M, &Op) -> Result<(), (String, String)>| -> Result<(), (String, String)> {
            let mut h = mix(cap as u64);
            for i in 0..k {
                let held = m.q.len();
                let op = match c.rng.below(8) {
                    _ if i == 0 || held == 0 => { let k = near(&mut c.rng, cap).max(66_000); let z = c.rng.u8(); Op::Extend((0..k).map(|j| (j.wrapping_mul(7) >> 3) as u8 ^ (j >> 8) as u8 ^ z).collect()) },
                    0 | 1 => { let k = near(&mut c.rng, cap); let z = c.rng.u8(); Op::Extend((0..if grow { k.min(cap - held.min(cap)) } else { k }).map(|j| (j as u8).wrapping_mul(3) ^ (j >> 8) as u8 ^ z).collect()) },
                    2..=4 => Op::Drain(near(&mut c.rng, held)),
                    5 => { // a byte that occurs first a long way in
                        let mut v = [usize::MAX; 256];
                        for (j, b) in m.q.iter().enumerate() { if v[*b as usize] == usize::MAX { v[*b as usize] = j; } }
                        Op::Find((0..256).max_by_key(|b| if v[*b] == usize::MAX { 0 } else { v[*b] }).unwrap() as u8)
                    },
                    6 => Op::Index(near(&mut c.rng, held + 2)),
                    _ => { let j = near(&mut c.rng, held); Op::Range(near(&mut c.rng, j), j) },
                };
                h = mix(h ^ match &op { Op::Extend(x) => x.len() as u64, Op::Drain(n) => 1 << 20 | *n as u64, Op::Index(n) => 2 << 20 | *n as u64, Op::Range(a, b) => (*a as u64) << 32 | *b as u64, _ => 3 });
                f(c, m, &op).map_err(|(s, d)| (s, crop(&d, 400)))?;
                if m.q.len() > 65_535 { c.count("states beyond 65535 bytes", 1); }
            }
            c.distinct(h);
            Ok(())
        };
        if grow {
            let mut v = Vec::new();
            let mut m = M { q: VecDeque::new(), cap: None };
            body(c, &mut m, &mut |c, m, op| step::<Vec<u8>>(c, &mut v, m, op)).map_err(|(s, d)| Violation { sig: format!("growable buffer: {}", s), detail: d })
        } else {
            fixed(c, cap, |c, b, m| body(c, m, &mut |c, m, op| step(c, b, m, op)))
        }
    });
    let n = x.n(10_000, 400_000);
    x.section("default methods", "the search and emptiness the storage trait provides to a user's own buffer that implements only the required methods", n, |c| {
        let k = c.rng.below(40);
        let v: Vec<u8> = (0..k).map(|_| if c.rng.bool() { c.rng.below(6) as u8 } else { c.rng.u8() }).collect();
        let b = Plain(v.clone());
        for _ in 0..8 {
            let x = if c.rng.bool() && k > 0 { v[c.rng.below(k)] } else { c.rng.below(6) as u8 };
            let got = c.call("default search", || b.find(x))?;
            if got != v.iter().position(|y| *y == x) { return viol("default search finds the wrong position", format!("{:#x} in {}: {:?}", x, hex(&v), got)); }
        }
        if b.is_empty() != v.is_empty() { return viol("default emptiness is wrong", format!("{} bytes", k)); }
        c.count("default method calls", 9);
        c.distinct_bytes(&v);
        Ok(())
    });
    let n = x.n(10_000, 400_000);
    x.section("parser length queries", "the parser's length and emptiness always describe what its buffer holds: never more than the capacity, empty iff zero", n, |c| {
        let k = c.rng.range(1, 6);
        let s = stream(&mut c.rng, k, false);
        let cap = c.rng.range(4, 120);
        let cuts = chunks(&mut c.rng, s.len());
        fixed(c, cap, |_c, _b, _m| Ok(()))?;
        let mut mem = vec![0u8; cap];
        let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
        let mut v = Parser::default();
        let (mut at, mut fed) = (0, 0);
        for n in cuts {
            let chunk = &s[at..at + n];
            at += n;
            fed += n;
            c.call("parsing", || { let mut it = p.consume(chunk); while it.next().is_some() {} })?;
            c.call("parsing", || { let mut it = v.consume(chunk); while it.next().is_some() {} })?;
            if p.buffer_len() > cap { return viol("parser holds more than its buffer", format!("{} > {}", p.buffer_len(), cap)); }
            if v.buffer_len() > fed { return viol("parser holds more than it was given", format!("{} > {}", v.buffer_len(), fed)); }
            if p.is_buffer_empty() != (p.buffer_len() == 0) || v.is_buffer_empty() != (v.buffer_len() == 0) { return viol("parser emptiness and length disagree", format!("{} {}", p.buffer_len(), v.buffer_len())); }
            c.seen("parser lengths", p.buffer_len() as u64);
        }
        c.distinct_bytes(&s);
        Ok(())
    });
    x.require("accesses refused", 20_000);
    x.require("appends that did not fit", 20_000);
    x.require("removals of more than held", 5_000);
    x.require("searches that hit", 5_000);
    x.require("states beyond 65535 bytes", 40);
    x.finish()
}
