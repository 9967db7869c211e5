//! Generators: payloads of supported packets, frames, hostile streams, chunkings.
use crate::gen_spec::*;
use crate::model::{frame, MAX};
use crate::rng::Rng;
use crate::spec::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Fill { Random, Corner }

/// A NUL-terminated text of `n` bytes (valid UTF-8 before the terminator).
pub fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let len = match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n) };
    let mut v = utf8(r, len);
    v.push(0);
    while v.len() < n { v.push(if r.bool() { 0 } else { r.u8() }); }
    v
}
/// Exactly `n` bytes of UTF-8 without NUL.
pub fn utf8(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let ascii = r.chance(1, 2);
    while v.len() < n {
        let left = n - v.len();
        let c = match if ascii { 0 } else { r.below(6) } {
            1 if left >= 2 => char::from_u32(r.range(0x80, 0x7ff) as u32),
            2 if left >= 3 => char::from_u32(r.range(0x800, 0xffff) as u32),
            3 if left >= 4 => char::from_u32(r.range(0x10000, 0x10ffff) as u32),
            4 => Some(*r.pick(&['\u{1}', '\u{7f}', '"', '\\', '\n'])),
            _ => char::from_u32(r.range(0x20, 0x7e) as u32),
        };
        if let Some(c) = c { let mut b = [0; 4]; v.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); }
    }
    v
}

/// Writes valid values into the validated fields of a payload (and protocol-defined UART words).
pub fn make_valid(r: &mut Rng, p: &PacketSpec, pl: &mut [u8]) {
    for f in p.fields {
        match f.conv {
            Conv::Enum(e) if f.checked && !ENUMS[e].open => { let v = r.pick(ENUMS[e].variants).1; pl[f.off..f.off + f.size].copy_from_slice(&v.to_le_bytes()[..f.size]); },
            Conv::Custom("&str") => { let t = text(r, f.size); pl[f.off..f.off + f.size].copy_from_slice(&t); },
            Conv::Custom("MonVerExtensionIter") => { for c in pl[f.off..].chunks_mut(30) { if c.len() == 30 { let t = text(r, 30); c.copy_from_slice(&t); } } },
            Conv::Custom("UartMode") => {
                let w = (crate::build::uart_word(r) | r.u64() & 0xffff_c13f) as u32;
                pl[f.off..f.off + 4].copy_from_slice(&w.to_le_bytes());
            },
            Conv::Custom("Option<&str>") => { if r.chance(2, 3) { let t = utf8(r, pl.len() - f.off); pl[f.off..].copy_from_slice(&t); } },
            _ => {},
        }
    }
}
/// Size of one record of the trailing group.
pub fn group(p: &PacketSpec) -> Option<usize> {
    p.fields.iter().find_map(|f| match f.conv {
        Conv::Custom("NavSatIter") => Some(12), Conv::Custom("MonVerExtensionIter") => Some(30), Conv::Custom("RxmRawxInfoIter") => Some(32),
        Conv::Custom("EsfRawDataIter") => Some(8), Conv::Custom("DwrdIter") => Some(4), Conv::Custom("EsfMeasDataIter") => Some(4), Conv::Custom("Option<&str>") => Some(1),
        _ => None,
    })
}
/// A length admitted by the packet's length rule (records: small, or up to the declared maximum).
pub fn valid_len(r: &mut Rng, p: &PacketSpec) -> usize {
    if let Some(n) = p.fixed { return n; }
    let g = group(p).unwrap();
    let maxn = (p.max - p.min) / g;
    let k = match r.below(8) { 0 => 0, 1 => 1, 2 => maxn, 3 => r.below(maxn + 1), _ => r.below(maxn.min(12) + 1) };
    p.min + k * g
}
/// A payload accepted as packet `p`; its group count field (if any) is set to the real count.
pub fn payload(r: &mut Rng, p: &PacketSpec, fill: Fill) -> Vec<u8> {
    let n = valid_len(r, p);
    let mut pl = raw_bytes(r, n, fill, p);
    if p.name == "EsfMeas" {
        // number of values and tag presence must fit the length
        let room = (n - 8) / 4;
        let tag = room > 0 && r.bool();
        let num = (room - tag as usize).min(31);
        let fl = (num as u16) << 11 | (tag as u16) << 3 | (r.u64() as u16 & 0x07f7);
        pl[4..6].copy_from_slice(&fl.to_le_bytes());
        pl.truncate(8 + 4 * (num + tag as usize));
    }
    make_valid(r, p, &mut pl);
    debug_assert!(valid(p, &pl), "harness: generator made an invalid {}", p.name);
    pl
}
fn raw_bytes(r: &mut Rng, n: usize, fill: Fill, p: &PacketSpec) -> Vec<u8> {
    match fill {
        Fill::Random => match r.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => { let mut v = vec![0u8; n]; if n > 0 { let i = r.below(n); v[i] = 1 << r.below(8); } v },
            3 => (0..n).map(|_| *r.pick(&[0xb5u8, 0x62, 0x00, 0x80, 0x7f, 0xff])).collect(),
            _ => r.bytes(n),
        },
        Fill::Corner => {
            let mut v = r.bytes(n);
            for f in p.fields {
                if f.size > 0 && f.size <= 8 { let x = r.corner(f.size as u32 * 8); v[f.off..f.off + f.size].copy_from_slice(&x.to_le_bytes()[..f.size]); }
            }
            // records: corner values at every width, in some of them
            let mut o = p.min.min(n);
            while p.fixed.is_none() && o < n {
                let w = (*r.pick(&[1usize, 1, 2, 4, 8])).min(n - o);
                if r.chance(1, 3) { let x = r.corner(w as u32 * 8); v[o..o + w].copy_from_slice(&x.to_le_bytes()[..w]); }
                o += w;
            }
            v
        },
    }
}
pub fn any_payload(r: &mut Rng, fill: Fill) -> (&'static PacketSpec, Vec<u8>) {
    let o = order();
    let p = *r.pick(&o);
    // the second of two packets sharing one description can never be delivered
    let p = if p.name == "MgaGpsEPH" { packet("MgaGpsEph") } else { p };
    (p, payload(r, p, fill))
}

/// One segment of a hostile stream.
fn segment(r: &mut Rng, out: &mut Vec<u8>, depth: usize, big: bool) {
    match r.below(17) {
        0 | 1 | 2 => { let (p, pl) = any_payload(r, Fill::Random); out.extend(frame(p.class, p.id, &pl)); },
        3 | 4 => { let n = if big && r.chance(1, 8) { *r.pick(&[MAX, MAX - 1, 4096, 255, 256, 257, 8000]) } else { r.below(40) }; let pl = r.bytes(n); let (c, i) = (r.u8(), r.u8()); out.extend(frame(c, i, &pl)); },
        5 => { let (p, pl) = any_payload(r, Fill::Random); let mut f = frame(p.class, p.id, &pl); let i = r.below(f.len()); f[i] ^= 1 << r.below(8); out.extend(f); },
        6 => { let mut f = if r.bool() { let n = r.below(24); let pl = r.bytes(n); frame(r.u8(), r.u8(), &pl) } else { let (p, pl) = any_payload(r, Fill::Random); frame(p.class, p.id, &pl) }; let n = f.len(); f[n - 1 - r.below(2)] = r.u8(); out.extend(f); },
        7 => { let (p, pl) = any_payload(r, Fill::Random); let f = frame(p.class, p.id, &pl); out.extend(&f[..r.below(f.len())]); },
        8 => { let n = r.below(30); out.extend(r.bytes(n)); },
        9 => { let n = r.range(1, 12); for _ in 0..n { out.push(*r.pick(&[0xb5, 0x62, 0xb5, 0x00])); } },
        10 => { // header announcing too much
            let l = *r.pick(&[MAX + 1, MAX + 2, 0xffff, 0x2000, 0x62b5, 0xb562]);
            out.extend([0xb5, 0x62, r.u8(), r.u8(), l as u8, (l >> 8) as u8]);
            let n = r.below(6); out.extend(r.bytes(n));
        },
        11 if depth < 3 => { // frames inside a frame whose checksum is wrong (or right)
            let mut inner = vec![];
            for _ in 0..r.range(1, 3) { segment(r, &mut inner, depth + 1, false); }
            inner.truncate(MAX);
            let mut f = frame(r.u8(), r.u8(), &inner);
            if r.chance(2, 3) { let n = f.len(); f[n - 2] = f[n - 2].wrapping_add(1 + r.below(255) as u8); }
            out.extend(f);
        },
        12 if depth < 3 => { // announced length swallows following frames
            let mut inner = vec![];
            for _ in 0..r.range(1, 3) { segment(r, &mut inner, depth + 1, false); }
            let l = (inner.len() + r.below(20)).min(MAX);
            out.extend([0xb5, 0x62, r.u8(), r.u8(), l as u8, (l >> 8) as u8]);
            out.extend(inner);
        },
        13 => out.extend([0xb5, 0xb5, 0x62]),
        14 => { // checksum bytes that look like the start of a frame
            let pl0 = r.bytes(3); let c = r.u8(); let i = r.u8();
            let mut hit = false;
            for t in 0..=0xffffu32 {
                let mut pl = pl0.clone(); pl[1] = t as u8; pl[2] = (t >> 8) as u8;
                let f = frame(c, i, &pl);
                if f[f.len() - 2] == 0xb5 && f[f.len() - 1] == 0x62 || (t > 0xff00 && f[f.len() - 1] == 0xb5) { out.extend(f); hit = true; break; }
            }
            if !hit { out.push(0xb5); }
        },
        15 => { // text in between, as receivers send it
            out.extend_from_slice(b"$GNGGA,092725.00,4717.11399,N,00833.91590,E,1,08,1.01,499.6,M,48.0,M,,*5B\r\n");
        },
        _ => { let pl = r.bytes(2); out.extend(frame(5, r.below(2) as u8, &pl)); },
    }
}
pub fn stream(r: &mut Rng, segs: usize, big: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..segs { segment(r, &mut v, 0, big); }
    if r.chance(1, 4) && !v.is_empty() { let n = r.below(v.len()); v.truncate(n + 1); }
    v
}
/// Tiny-alphabet stream: overlapping candidates are dense, lengths tiny, checksums often right.
pub fn dense(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    while v.len() < n {
        match r.below(6) {
            0 | 1 => v.extend([0xb5, 0x62]),
            2 => { let k = r.below(4); let pl: Vec<u8> = (0..k).map(|_| *r.pick(&[0xb5, 0x62, 0])).collect(); v.extend(frame(*r.pick(&[0, 0xb5, 0x62]), *r.pick(&[0, 0xb5, 0x62]), &pl)); },
            3 => { let l = r.below(6) as u8; v.extend([0xb5, 0x62, r.below(2) as u8, 0, l, 0]); },
            4 => v.push(*r.pick(&[0xb5, 0x62, 0, 1, 2])),
            _ => { // completes a checksum for the last header, if there is one
                if let Some(p) = v.windows(2).rposition(|w| w == [0xb5, 0x62]) {
                    if v.len() >= p + 6 {
                        let l = v[p + 4] as usize | (v[p + 5] as usize) << 8;
                        if l < 40 { while v.len() < p + 6 + l { v.push(*r.pick(&[0xb5, 0x62, 0])); } if v.len() == p + 6 + l { let (a, b) = crate::model::cksum(&v[p + 2..]); v.push(a); v.push(b); } }
                    }
                }
            },
        }
    }
    v.truncate(n);
    v
}

/// Cuts a stream of length n into chunk lengths.
pub fn chunks(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let mode = r.below(7);
    let fixed = r.range(1, 40);
    while left > 0 {
        let k = match mode {
            0 => n,
            1 => 1,
            2 => fixed,
            3 => r.below(8),
            4 => r.below(64),
            5 => if r.chance(1, 3) { 0 } else { r.range(1, 300) },
            _ => r.range(0, n),
        }.min(left);
        v.push(k);
        left -= k;
        if v.len() > 40_000 { v.push(left); break; }
    }
    if r.chance(1, 3) { v.push(0); }
    v
}
