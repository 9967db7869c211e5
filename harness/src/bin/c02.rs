//! C02: results do not depend on chunking or on dropping the iterator early.
use ublox::{FixedLinearBuffer, Parser, UnderlyingBuffer};
use vh::frames::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;

type R1 = (Ev, &'static str, u64);
fn result(r: Result<ublox::PacketRef, ublox::ParserError>) -> Result<R1, String> {
    let (k, h) = match &r { Ok(p) => { let k = vh::gen_obs::kind_of(p); (k, if k == "CfgPrtUart" || k == "TimTm2" { 0 } else { hash_bytes(format!("{:?}", p).as_bytes()) }) }, Err(_) => ("error", 0) };
    Ok((event(r)?, k, h))
}
fn feed<T: UnderlyingBuffer>(p: &mut Parser<T>, chunk: &[u8], max: usize, out: &mut Vec<R1>) -> Result<bool, String> {
    let mut it = p.consume(chunk);
    for _ in 0..max { match it.next() { Some(r) => out.push(result(r)?), None => return Ok(true) } }
    Ok(false)
}
fn mk<'a>(e: String) -> Violation { Violation { sig: "unexpected error kind".into(), detail: e } }

fn run<T: UnderlyingBuffer>(c: &mut Case, p: &mut Parser<T>, s: &[u8], cuts: &[usize], early: bool, exp: &[R1], tail: usize) -> Res {
    let mut got: Vec<R1> = vec![];
    let mut from = 0;
    let mut drops = 0u64;
    for n in cuts {
        let chunk = &s[from..from + n];
        from += n;
        let max = if early && c.rng.chance(2, 3) { *c.rng.pick(&[0usize, 0, 1, 1, 2, 3]) } else { usize::MAX };
        let done = c.call("parsing", || feed(p, chunk, max, &mut got))?.map_err(mk)?;
        if !done { drops += 1; }
        if got.len() > exp.len() { break; }
        if got[..] != exp[..got.len()] { break; }
    }
    c.call("parsing", || feed(p, &[], usize::MAX, &mut got))?.map_err(mk)?;
    c.count("chunks fed", cuts.len() as u64);
    c.count("iterators dropped early", drops);
    c.count("results compared", got.len() as u64);
    for i in 0..exp.len().max(got.len()) {
        if got.get(i) != exp.get(i) {
            let f = |x: Option<&R1>| x.map(|x| format!("{} as {}", short(&x.0), x.1)).unwrap_or("nothing".into());
            return viol(if drops > 0 { "results change when the iterator is dropped early" } else { "results depend on the chunking" },
                format!("result {}: in one piece {}, in chunks {:?} (early drops: {}) {}; stream {}", i, f(exp.get(i)), crop(&format!("{:?}", cuts), 200), drops, f(got.get(i)), hex(s)));
        }
    }
    if p.buffer_len() != tail { return viol("left-over bytes depend on the chunking", format!("{} bytes left, {} when fed in one piece; chunks {:?}; stream {}", p.buffer_len(), tail, crop(&format!("{:?}", cuts), 200), hex(s))); }
    Ok(())
}
fn case(c: &mut Case, s: Vec<u8>, variants: usize) -> Res {
    let mut whole = Parser::default();
    let mut exp = vec![];
    c.call("parsing", || feed(&mut whole, &s, usize::MAX, &mut exp))?.map_err(mk)?;
    let tail = whole.buffer_len();
    for v in 0..variants {
        let cuts = chunks(&mut c.rng, s.len());
        let early = v % 2 == 1;
        if !exp.is_empty() { c.distinct(mix(hash_bytes(&s) ^ hash_bytes(format!("{:?}", cuts).as_bytes()))); }
        for k in &cuts { c.seen("chunk sizes", *k as u64); }
        if c.want_sample() && v == 0 { c.sample(format!("{} bytes -> {} results, chunks {}", s.len(), exp.len(), crop(&format!("{:?}", cuts), 150))); }
        if c.rng.chance(3, 4) {
            run(c, &mut Parser::default(), &s, &cuts, early, &exp, tail)?;
        } else {
            // a fixed buffer large enough for everything that is ever left over
            let mut mem = vec![0xAAu8; s.len().max(8) + c.rng.below(9)];
            run(c, &mut Parser::new(FixedLinearBuffer::new(&mut mem)), &s, &cuts, early, &exp, tail)?;
        }
        c.evals(1);
    }
    Ok(())
}
/// Tight fixed buffer: the iterator is dropped early only while what is left over still fits.
fn tight(c: &mut Case) -> Res {
    let n = c.rng.range(1, 8);
    let s = stream(&mut c.rng, n, false);
    let cap = c.rng.range(8, 200);
    let mut mem = vec![0x55u8; cap];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
    let mut m = Bounded::new(cap);
    let cuts = chunks(&mut c.rng, s.len());
    let mut from = 0;
    let (mut drops, mut results) = (0u64, 0u64);
    for n in cuts.iter().chain([&0]) {
        let chunk = &s[from..from + n];
        from += n;
        m.feed(chunk);
        let r: Result<Res, Violation> = c.call("parsing", || {
            let mut it = p.consume(chunk);
            loop {
                if m.s.len() - m.pos <= cap && mix(m.pos as u64 ^ from as u64) & 3 == 0 && from < s.len() { drops += 1; return Ok(()); }
                let e = match it.next() { Some(r) => Some(event(r).map_err(mk)?), None => None };
                results += e.is_some() as u64;
                m.step(&e).map_err(|d| Violation { sig: "early drop with a tight buffer loses or changes results".into(), detail: format!("{}; capacity {}, chunks {:?}, stream {}", d, cap, crop(&format!("{:?}", cuts), 200), hex(&s)) })?;
                if e.is_none() { return Ok(()); }
            }
        });
        r??;
    }
    c.count("iterators dropped early", drops);
    c.count("results compared", results);
    if drops > 0 && results > 0 { c.distinct(mix(hash_bytes(&s) ^ cap as u64)); }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C02");
    x.assumptions = vec!["the one-piece run of the same parser is the reference".into()];
    let n = x.n(5_000, 250_000);
    x.section("hostile streams", "2-10 hostile segments (see C01) cut by 4 random partitions (single bytes, fixed, mixed, empty chunks), half of them with iterators dropped after 0-3 results; growable buffer, or a fixed one that holds everything; non-trivial: distinct (stream, partition) with at least one result", n, |c| {
        let n = c.rng.range(2, 10);
        let s = stream(&mut c.rng, n, c.idx % 16 == 0);
        case(c, s, 4)
    });
    let n = x.n(20_000, 900_000);
    x.section("dense overlaps", "overlapping candidates in 1-120 bytes, 4 partitions each", n, |c| {
        let n = c.rng.range(1, 120);
        let s = dense(&mut c.rng, n);
        case(c, s, 4)
    });
    let n = x.n(160, 6_000);
    x.section("large backlogs", "20-150 kB of frames (up to the largest), garbage and false starts cut into 1-6 chunks, iterators dropped after 0-40 results so that up to the whole stream waits unread in the buffer", n, |c| {
        let mut s = vec![];
        let min = c.rng.range(20_000, if c.idx % 8 == 0 { 150_000 } else { 40_000 });
        while s.len() < min { let b = c.rng.chance(1, 6); let n = c.rng.range(1, 6); let t = stream(&mut c.rng, n, b); s.extend(t); }
        let mut whole = Parser::default();
        let mut exp = vec![];
        c.call("parsing", || feed(&mut whole, &s, usize::MAX, &mut exp))?.map_err(mk)?;
        let tail = whole.buffer_len();
        for _ in 0..3 {
            let mut at: Vec<usize> = (0..c.rng.below(6)).map(|_| c.rng.range(0, s.len())).collect();
            at.push(s.len());
            at.sort();
            let fixed = c.rng.bool();
            let mut mem = vec![0x62u8; if fixed { s.len() } else { 0 }];
            let (mut g, mut f) = (Parser::default(), Parser::new(FixedLinearBuffer::new(&mut mem)));
            let mut got = vec![];
            let mut from = 0;
            for to in at.iter().copied().chain(std::iter::repeat(s.len()).take(8)) {
                let max = c.rng.below(40);
                c.call("parsing", || if fixed { feed(&mut f, &s[from..to], max, &mut got) } else { feed(&mut g, &s[from..to], max, &mut got) })?.map_err(mk)?;
                from = to;
                c.seen("backlog sizes (KiB)", (if fixed { f.buffer_len() } else { g.buffer_len() } >> 10) as u64);
            }
            c.call("parsing", || if fixed { feed(&mut f, &[], usize::MAX, &mut got) } else { feed(&mut g, &[], usize::MAX, &mut got) })?.map_err(mk)?;
            c.count("results compared", got.len() as u64);
            let k = (0..exp.len().max(got.len())).find(|i| exp.get(*i) != got.get(*i));
            if let Some(k) = k { return viol("results change when a large backlog is left unread", format!("result {} of {} differs; {} results instead; stream of {} bytes cut at {:?}, {} buffer", k, exp.len(), got.len(), s.len(), at, if fixed { "fixed" } else { "growable" })); }
            let left = if fixed { f.buffer_len() } else { g.buffer_len() };
            if left != tail { return viol("left-over bytes depend on the chunking", format!("{} bytes left, {} when fed in one piece", left, tail)); }
            c.distinct(mix(hash_bytes(&s) ^ hash_bytes(format!("{:?}", at).as_bytes())));
        }
        c.evals(3);
        Ok(())
    });
    let n = x.n(1_200, 12_000);
    x.section("every split point", "a stream of 2-4 segments (at most 260 bytes) split in two at every offset, and in three at random pairs, taking 0, 1 or all results from the first part", n, |c| {
        let n = c.rng.range(2, 4);
        let mut s = stream(&mut c.rng, n, false);
        s.truncate(260);
        let mut whole = Parser::default();
        let mut exp = vec![];
        c.call("parsing", || feed(&mut whole, &s, usize::MAX, &mut exp))?.map_err(mk)?;
        let tail = whole.buffer_len();
        for k in 0..=s.len() {
            run(c, &mut Parser::default(), &s, &[k, s.len() - k], k % 3 == 0, &exp, tail)?;
            let j = c.rng.range(k, s.len());
            run(c, &mut Parser::default(), &s, &[k, j - k, s.len() - j], k % 2 == 0, &exp, tail)?;
            if !exp.is_empty() { c.distinct(mix(hash_bytes(&s) ^ k as u64)); }
        }
        c.evals(2 * s.len() as u64);
        Ok(())
    });
    let n = x.n(20_000, 1_000_000);
    x.section("tight fixed buffers", "capacity 8-200, early drops only while the unread rest fits the buffer; results checked by the framing automaton", n, tight);
    x.require("iterators dropped early", 10_000);
    x.require("results compared", 50_000);
    x.finish()
}
