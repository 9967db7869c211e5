//! C01: frame extraction from an arbitrary stream, against a reference scanner.
use ublox::Parser;
use vh::frames::*;
use vh::model::*;
use vh::run::*;
use vh::rng::*;

/// Feeds the stream in one or a few pieces and compares results and buffered length with the scanner.
fn exact(c: &mut Case, s: &[u8], cuts: &[usize]) -> Res {
    let mut m = Scanner::default();
    let mut p = Parser::default();
    let mut from = 0;
    let (mut nf, mut ne) = (0u64, 0u64);
    for cut in cuts.iter().chain([&s.len()]) {
        let chunk = &s[from..*cut];
        from = *cut;
        m.feed(chunk);
        let r: Res = c.call("parsing", || {
            let mut it = p.consume(chunk);
            loop {
                let got = match it.next() { Some(r) => match event(r) { Ok(e) => Some(e), Err(e) => return viol("unexpected error kind", e) }, None => None };
                let exp = m.next();
                if got != exp {
                    let f = |e: &Option<Ev>| e.as_ref().map(short).unwrap_or("no result".into());
                    let (g, x) = (f(&got), f(&exp));
                    return viol(format!("wrong result: {} instead of {}", kind(&got), kind(&exp)), format!("got {}, expected {}; stream {}", g, x, hex(s)));
                }
                match got { Some(Ev::Frame { .. }) => nf += 1, Some(_) => ne += 1, None => break }
            }
            Ok(())
        })?;
        r?;
        let (have, want) = (p.buffer_len(), m.tail());
        if have != want || p.is_buffer_empty() != (want == 0) {
            return viol("wrong number of buffered bytes", format!("{} bytes buffered, the unfinished candidate has {}; stream {}", have, want, hex(s)));
        }
    }
    c.count("frames delivered", nf);
    c.count("checksum errors", ne);
    c.count("bytes scanned", s.len() as u64);
    c.count("bytes left unfinished", m.tail() as u64);
    if nf + ne > 0 || m.tail() > 0 { c.distinct_bytes(s); }
    if c.want_sample() { c.sample(format!("{} bytes {} -> {} frames, {} checksum errors, {} left", s.len(), crop(&hex(s), 160), nf, ne, m.tail())); }
    Ok(())
}
fn kind(e: &Option<Ev>) -> String {
    match e { None => "nothing".into(), Some(Ev::Frame { .. }) => "a frame".into(), Some(Ev::Checksum { .. }) => "a checksum error".into(), Some(Ev::Oom(_)) => "an out-of-memory error".into() }
}

fn main() {
    let mut x = Ctx::new("C01");
    x.assumptions = vec!["framing rules as in the UBX protocol, maximum payload 8176".into(), "execution sampled, not exhaustive, except the bounded sections".into()];
    let n = x.n(14_000, 700_000);
    x.section("hostile streams", "2-12 segments: valid frames of known and unknown messages, bit flips, wrong checksums, truncations, nesting, oversized headers, lone syncs, NMEA text, noise; whole or in 1-3 pieces; non-trivial: at least one result or unfinished candidate, distinct bytes", n, |c| {
        let n = c.rng.range(2, 12);
        let s = stream(&mut c.rng, n, true);
        let mut cuts: Vec<usize> = (0..c.rng.below(3)).map(|_| c.rng.below(s.len() + 1)).collect();
        cuts.sort();
        exact(c, &s, &cuts)
    });
    let n = x.n(60_000, 4_000_000);
    x.section("dense overlaps", "streams of 1-80 bytes over sync bytes, tiny headers and completed checksums, so that candidates overlap; non-trivial as above", n, |c| {
        let n = c.rng.range(1, 80);
        let s = dense(&mut c.rng, n);
        let cuts: Vec<usize> = if c.rng.bool() { vec![] } else { vec![c.rng.below(s.len() + 1)] };
        exact(c, &s, &cuts)
    });
    x.section("all payload lengths", "one valid frame of every payload length 0..8176 (and headers announcing 8177..65535, every step in thorough), followed by a second frame; non-trivial: frame delivered", 8177 + 512, |c| {
        let l = c.idx as usize;
        let mut s;
        if l <= MAX {
            let pl = c.rng.bytes(l);
            s = frame(c.rng.u8(), c.rng.u8(), &pl);
        } else {
            let l = if l < MAX + 257 { l } else { 65535 - (l - MAX - 257) * 223 };
            s = vec![0xb5, 0x62, c.rng.u8(), c.rng.u8(), l as u8, (l >> 8) as u8];
            s.extend(c.rng.bytes(9));
        }
        let pl = c.rng.bytes(3);
        s.extend(frame(5, 1, &pl[..2]));
        let cuts = if c.rng.bool() { vec![] } else { vec![c.rng.below(s.len())] };
        exact(c, &s, &cuts)
    });
    x.section("all short tails", "every byte string of length 0..=3 over {b5,62,00,01,06,ff} before a valid frame, and after a header start; every byte value at each position of a frame header; non-trivial as above", 6 * 6 * 6 + 8 * 256, |c| {
        let al = [0xb5u8, 0x62, 0, 1, 6, 0xff];
        let i = c.idx as usize;
        let s = if i < 216 {
            let mut v = vec![al[i % 6], al[i / 6 % 6], al[i / 36]];
            v.truncate(i % 4);
            v.extend(frame(1, 2, &[1, 2, 3, 4]));
            v.extend([al[i % 6], al[i / 6 % 6], al[i / 36]]);
            v
        } else {
            let (b, v) = ((i - 216) / 256, (i - 216) % 256);
            let mut f = frame(6, 1, &[0xb5, 0x62]);
            f.extend(frame(6, 0, &[0]));
            f[b] = v as u8;
            f.extend(frame(5, 1, &[6, 1]));
            f
        };
        exact(c, &s, &[])
    });
    let n = x.n(12_000, 400_000);
    x.section("checksum exactness", "one frame with each of its checksum bytes replaced by every kind of wrong value (single bit flips, swapped, off by one), or payload bits flipped pairwise, followed by a good frame; non-trivial: error or frame seen", n, |c| {
        let l = *c.rng.pick(&[0usize, 1, 2, 8, 20, 28, 255, 256, 300]);
        let pl = c.rng.bytes(l);
        let mut f = frame(c.rng.u8(), c.rng.u8(), &pl);
        let n = f.len();
        match c.rng.below(7) {
            0 => f[n - 1] ^= 1 << c.rng.below(8),
            1 => f[n - 2] ^= 1 << c.rng.below(8),
            2 => f.swap(n - 1, n - 2),
            3 => { f[n - 1] = f[n - 1].wrapping_add(1); f[n - 2] = f[n - 2].wrapping_sub(1); },
            4 => { let i = c.rng.range(2, n - 3); f[i] ^= 1 << c.rng.below(8); },
            5 => { let i = c.rng.range(2, n - 3); let j = c.rng.range(2, n - 3); f[i] = f[i].wrapping_add(1); f[j] = f[j].wrapping_sub(1); },
            _ => { f[n - 1] = c.rng.u8(); f[n - 2] = c.rng.u8(); },
        }
        f.extend(frame(5, 1, &[6, 0]));
        f.extend([0; 3]);
        exact(c, &f, &[])
    });
    let n = x.n(8_000, 200_000);
    x.section("error texts", "one frame with a wrong checksum; the text of the error names the received and the computed checksum; non-trivial: error seen", n, |c| {
        let l = c.rng.below(12);
        let pl = c.rng.bytes(l);
        let mut f = frame(c.rng.u8(), c.rng.u8(), &pl);
        let n = f.len();
        if c.rng.bool() { f[n - 1] = *c.rng.pick(&[0, 1, 0xff, 0x80]); } else { f[n - 2] = *c.rng.pick(&[0, 1, 0xff, 0x80]); f[n - 1] ^= 1; }
        let r = c.call("parsing", || { let mut p = Parser::default(); let mut it = p.consume(&f); let r = match it.next() { Some(Err(e)) => Some(error_text(&e)), _ => None }; r })?;
        match r { Some(Ok(())) => c.count("error texts compared", 1), Some(Err(e)) => return viol("the text of a checksum error does not name its checksums", format!("{}; {}", e, hex(&f))), None => {} }
        c.distinct_bytes(&f);
        Ok(())
    });
    x.require("error texts compared", 4_000);
    let n = x.n(300, 20_000);
    x.section("big streams", "streams of 60-400 segments including maximum-size frames, fed whole or in pieces", n, |c| {
        let n = c.rng.range(60, 400);
        let s = stream(&mut c.rng, n, true);
        let mut cuts: Vec<usize> = (0..c.rng.below(6)).map(|_| c.rng.below(s.len() + 1)).collect();
        cuts.sort();
        exact(c, &s, &cuts)
    });
    if x.thorough {
        x.section("all 7-byte overlaps", "every string of 9 symbols over {b5,62,00,01} (262144) followed by a good frame", 262_144, |c| {
            let al = [0xb5u8, 0x62, 0, 1];
            let mut v: Vec<u8> = (0..9).map(|k| al[(c.idx >> (2 * k)) as usize & 3]).collect();
            v.extend(frame(1, 0, &[0x62]));
            v.push(0xb5);
            let cut = (mix(c.idx) % v.len() as u64) as usize;
            exact(c, &v, &[cut])
        });
    }
    x.require("frames delivered", 10_000);
    x.require("checksum errors", 5_000);
    x.finish()
}
