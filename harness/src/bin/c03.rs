//! C03: fixed-capacity parsing, checked online by a framing automaton.
use ublox::{FixedLinearBuffer, Parser};
use vh::frames::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;

fn trace(c: &mut Case, s: &[u8], cap: usize, cuts: &[usize]) -> Res {
    let mut mem = vec![0xB5u8; cap];
    let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
    let mut m = Bounded::new(cap);
    let mut from = 0;
    let (mut frames, mut oom, mut ck, mut big) = (0u64, 0u64, 0u64, 0u64);
    let ctx = |d: String| format!("{}; capacity {}, chunks {}, stream {}", d, cap, crop(&format!("{:?}", cuts), 200), hex(s));
    for n in cuts {
        let chunk = &s[from..from + n];
        from += n;
        m.feed(chunk);
        let r: Result<Res, Violation> = c.call("parsing", || {
            let mut it = p.consume(chunk);
            loop {
                let e = match it.next() {
                    Some(r) => Some(event(r).map_err(|e| Violation { sig: "unexpected error kind".into(), detail: ctx(e) })?),
                    None => None,
                };
                match &e {
                    Some(Ev::Frame { payload, .. }) => { frames += 1; if payload.len() + 8 > cap { big += 1; } },
                    Some(Ev::Oom(_)) => oom += 1,
                    Some(Ev::Checksum { .. }) => ck += 1,
                    None => {},
                }
                m.step(&e).map_err(|d| Violation {
                    sig: match &e { None => "frame or bytes lost", Some(Ev::Oom(_)) => "unjustified out-of-memory error", Some(Ev::Frame { .. }) => "wrong frame", Some(Ev::Checksum { .. }) => "wrong checksum error" }.into(),
                    detail: ctx(d),
                })?;
                if e.is_none() { return Ok(()); }
            }
        });
        r??;
        let (have, want) = (p.buffer_len(), m.tail());
        if have != want { return viol("wrong number of buffered bytes", ctx(format!("{} bytes buffered, unfinished tail has {}", have, want))); }
        c.seen("buffered bytes, capacity", (have as u64) << 20 | cap as u64);
    }
    c.count("frames that fit", frames - big);
    c.count("frames larger than the buffer delivered", big);
    c.count("out-of-memory errors", oom);
    c.count("checksum errors", ck);
    c.count("chunks fed", cuts.len() as u64);
    if frames + oom + ck > 0 { c.distinct(mix(hash_bytes(s) ^ mix(cap as u64) ^ hash_bytes(format!("{:?}", cuts).as_bytes()))); }
    if c.want_sample() { c.sample(format!("capacity {}, {} bytes in {} chunks -> {} frames, {} oom, {} checksum errors", cap, s.len(), cuts.len(), frames, oom, ck)); }
    Ok(())
}
/// A capacity near something that matters in the stream.
fn capacity(c: &mut Case, s: &[u8]) -> usize {
    let mut sizes = vec![8usize, 16, 36, 64, 100, 256];
    for w in 0..s.len().saturating_sub(5) {
        if s[w] == 0xb5 && s[w + 1] == 0x62 { let l = s[w + 4] as usize | (s[w + 5] as usize) << 8; if l <= MAX { sizes.push(l + 8); sizes.push(l + 2); } }
    }
    let b = *c.rng.pick(&sizes);
    let cap = match c.rng.below(6) { 0 => b, 1 => b + 1, 2 => b.saturating_sub(1), 3 => b + c.rng.below(12), 4 => c.rng.range(8, 80), _ => b + b / 2 };
    cap.max(8)
}

fn main() {
    let mut x = Ctx::new("C03");
    x.assumptions = vec!["capacities of at least 8 bytes (a header plus checksum)".into(), "each chunk's results are drained before the next chunk".into()];
    let n = x.n(60_000, 2_500_000);
    x.section("hostile streams", "1-8 hostile segments; capacity at, just below, just above frame sizes in the stream or random; random partition; non-trivial: distinct (stream, capacity, partition) with a result", n, |c| {
        let n = c.rng.range(1, 8);
        let s = stream(&mut c.rng, n, c.idx % 64 == 0);
        let cap = capacity(c, &s);
        let cuts = chunks(&mut c.rng, s.len());
        trace(c, &s, cap, &cuts)
    });
    let n = x.n(120_000, 5_000_000);
    x.section("dense overlaps", "overlapping tiny candidates, capacities 8-40", n, |c| {
        let n = c.rng.range(1, 120);
        let s = dense(&mut c.rng, n);
        let cap = c.rng.range(8, 40);
        let cuts = chunks(&mut c.rng, s.len());
        trace(c, &s, cap, &cuts)
    });
    x.section("exact fits", "back-to-back frames of equal size T with garbage between, capacities T-2..T+8, fixed chunk sizes 1..3T: every combination of T in 8..48, capacity and a random chunk size", 41 * 11 * 6, |c| {
        let t = 8 + (c.idx % 41) as usize;
        let cap = (t + (c.idx / 41 % 11) as usize).saturating_sub(2).max(8);
        let mut s = vec![];
        for _ in 0..c.rng.range(2, 7) {
            let pl = c.rng.bytes(t - 8);
            if c.rng.chance(1, 3) { let n = c.rng.below(5); s.extend(c.rng.bytes(n)); }
            let mut f = frame(c.rng.u8(), c.rng.u8(), &pl);
            if c.rng.chance(1, 6) { let k = f.len() - 1; f[k] ^= 4; }
            s.extend(f);
        }
        let k = c.rng.range(1, 3 * t);
        let mut cuts = vec![];
        let mut left = s.len();
        while left > 0 { let n = k.min(left); cuts.push(n); left -= n; }
        trace(c, &s, cap, &cuts)
    });
    let n = x.n(700, 20_000);
    x.section("every split point", "two or three frames and noise (at most 150 bytes), capacity near a frame size, split in two at every offset", n, |c| {
        let n = c.rng.range(1, 4);
        let mut s = stream(&mut c.rng, n, false);
        s.truncate(150);
        let cap = capacity(c, &s);
        for k in 0..=s.len() { trace(c, &s, cap, &[k, s.len() - k, 0])?; c.evals(1); }
        Ok(())
    });
    let n = x.n(3_000, 100_000);
    x.section("error texts", "a frame that does not fit, split; the text of the out-of-memory error names the size", n, |c| {
        let cap = c.rng.range(8, 200);
        let l = (cap + c.rng.range(0, 3000)).min(MAX);
        let pl = c.rng.bytes(l);
        let f = frame(c.rng.u8(), c.rng.u8(), &pl);
        let k = c.rng.range(1, cap.min(f.len() - 1));
        let r = c.call("parsing", || {
            let mut mem = vec![0u8; cap];
            let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
            { let mut it = p.consume(&f[..k]); while it.next().is_some() {} }
            let mut it = p.consume(&f[k..]);
            let mut r = Ok(0);
            while let Some(x) = it.next() { if let Err(e @ ublox::ParserError::OutOfMemory { .. }) = x { r = error_text(&e).map(|_| 1); break } }
            r
        })?;
        match r { Ok(n) => c.count("error texts compared", n), Err(e) => return viol("the text of an out-of-memory error does not name the size", e) }
        c.distinct_bytes(&f);
        Ok(())
    });
    x.require("error texts compared", 1_000);
    let n = x.n(20_000, 600_000);
    x.section("refused frames hiding a frame", "frames that do not fit whose class/id or id/length bytes are a sync pair opening a second (valid, corrupt or refused) frame, split after 7 to capacity bytes: scanning resumes right behind the first sync pair", n, |c| {
        let cap = c.rng.range(8, 140);
        let one = c.rng.bool();
        // one: class/id are the sync pair; otherwise the id and the low length byte are
        let mut l = (cap + c.rng.range(0, 60)).max(24);
        if !one { l = 0x62 + 256 * c.rng.below(3); }
        let mut pl = c.rng.bytes(l);
        let (class, id) = if one { (0xb5, 0x62) } else { (c.rng.u8(), 0xb5) };
        // the hidden frame: its class/id are length bytes (one) or the high length byte and the first payload byte
        let head = [class, id, l as u8, (l >> 8) as u8];
        let start = if one { 0 } else { 1 };
        let mut hidden: Vec<u8> = head[start..].to_vec();
        hidden.extend(&pl);
        let room = hidden.len();
        let il = c.rng.below(room - 8 + 1).min(room - 8);
        let lp = 4 - (4 - start); // offset of the hidden length bytes in pl
        pl[lp] = il as u8; pl[lp + 1] = (il >> 8) as u8;
        let mut hidden: Vec<u8> = head[start..].to_vec();
        hidden.extend(&pl);
        let (a, b) = cksum(&hidden[2..6 + il]);
        let e = 6 + il - (4 - start);
        if c.rng.chance(3, 4) { pl[e] = a; pl[e + 1] = b; }
        let mut f = frame(class, id, &pl);
        if c.rng.chance(1, 4) { let k = f.len() - 1; f[k] ^= 1 + c.rng.below(255) as u8; }
        let mut s = vec![];
        if c.rng.chance(1, 3) { let n = c.rng.below(6); s.extend(c.rng.bytes(n)); }
        s.extend(&f);
        if c.rng.bool() { let n = c.rng.below(20); let q = c.rng.bytes(n); s.extend(frame(1, 2, &q)); }
        let k = c.rng.range(1, cap.min(s.len()));
        let rest = s.len() - k;
        let cuts = if c.rng.bool() { vec![k, rest, 0] } else { let j = c.rng.below(rest + 1); vec![k, j, rest - j, 0] };
        c.count("frames hiding a frame", 1);
        trace(c, &s, cap, &cuts)
    });
    x.require("frames hiding a frame", 10_000);
    let n = x.n(400, 30_000);
    x.section("large frames", "frames of 1000-8184 bytes with capacities around their size and streams ten times longer", n, |c| {
        let mut s = vec![];
        let l = c.rng.range(1000, MAX);
        for _ in 0..c.rng.range(2, 5) { let pl = c.rng.bytes(l); s.extend(frame(c.rng.u8(), c.rng.u8(), &pl)); let n = c.rng.below(40); s.extend(c.rng.bytes(n)); }
        let cap = (l + 8 + c.rng.below(9)).saturating_sub(4);
        let cuts = chunks(&mut c.rng, s.len());
        let cuts = if cuts.len() > 4000 { vec![s.len() / 2, s.len() - s.len() / 2] } else { cuts };
        trace(c, &s, cap, &cuts)
    });
    let n = x.n(60, 4_000);
    x.section("long chunks and large buffers", "70-250 kB of frames up to the largest, garbage and false starts in 1-5 chunks; capacities from 8 bytes to twice the stream, half of them around 32767, 65535 and 131071", n, |c| {
        let want = c.rng.range(70_000, 250_000);
        let mut s = vec![];
        while s.len() < want {
            if c.rng.chance(1, 3) { let l = c.rng.range(0, MAX); let pl = c.rng.bytes(l); s.extend(frame(c.rng.u8(), c.rng.u8(), &pl)); }
            else { let n = c.rng.range(1, 40); s.extend(stream(&mut c.rng, n, true)); }
        }
        let cap = match c.rng.below(4) {
            0 | 1 => *c.rng.pick(&[32_767usize, 65_535, 131_071]) + c.rng.below(12) - 4,
            2 => capacity(c, &s[..20_000.min(s.len())]),
            _ => c.rng.range(8, 2 * s.len()),
        };
        let k = c.rng.below(5);
        let mut at: Vec<usize> = (0..k).map(|_| c.rng.below(s.len() + 1)).collect();
        at.sort();
        let mut cuts = vec![];
        let mut from = 0;
        for a in at { cuts.push(a - from); from = a; }
        cuts.push(s.len() - from);
        if c.rng.bool() { cuts.push(0); }
        c.count("bytes fed in long chunks", s.len() as u64);
        trace(c, &s, cap, &cuts)
    });
    x.require("bytes fed in long chunks", 3_000_000);
    x.require("frames that fit", 20_000);
    x.require("out-of-memory errors", 1_000);
    x.require("frames larger than the buffer delivered", 500);
    x.finish()
}
