//! Reference model of UBX framing: a scanner (exact semantics) and a trace automaton for bounded buffers.
pub const MAX: usize = 8176;

pub fn cksum(b: &[u8]) -> (u8, u8) {
    let (mut a, mut c) = (0u32, 0u32);
    for x in b { a = (a + *x as u32) & 0xff; c = (c + a) & 0xff; }
    (a as u8, c as u8)
}
pub fn frame(class: u8, id: u8, pl: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, pl.len() as u8, (pl.len() >> 8) as u8];
    v.extend_from_slice(pl);
    let (a, b) = cksum(&v[2..]);
    v.push(a); v.push(b);
    v
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ev { Frame { class: u8, id: u8, payload: Vec<u8> }, Checksum { expect: u16, got: u16 }, Oom(usize) }

/// Where a left-to-right scan of `s` from `pos` gets to.
#[derive(Debug, PartialEq)]
pub enum Cand {
    /// nothing left
    Idle,
    /// an unfinished candidate starts at the position; frame size if its header is complete
    Wait(usize, Option<usize>),
    /// complete candidate: position, payload length
    Full(usize, usize),
}
pub fn candidate(s: &[u8], mut pos: usize) -> Cand {
    loop {
        while pos < s.len() && s[pos] != 0xb5 { pos += 1; }
        let n = s.len() - pos;
        if n == 0 { return Cand::Idle; }
        if n < 2 { return Cand::Wait(pos, None); }
        if s[pos + 1] != 0x62 { pos += 1; continue; }
        if n < 6 { return Cand::Wait(pos, None); }
        let l = s[pos + 4] as usize | (s[pos + 5] as usize) << 8;
        if l > MAX { pos += 2; continue; }
        if n < l + 8 { return Cand::Wait(pos, Some(l + 8)); }
        return Cand::Full(pos, l);
    }
}
/// Result of a complete candidate and the position after it.
pub fn resolve(s: &[u8], p: usize, l: usize) -> (Ev, usize) {
    let (a, b) = cksum(&s[p + 2..p + 6 + l]);
    let (x, y) = (s[p + 6 + l], s[p + 7 + l]);
    if (a, b) == (x, y) {
        (Ev::Frame { class: s[p + 2], id: s[p + 3], payload: s[p + 6..p + 6 + l].to_vec() }, p + l + 8)
    } else {
        (Ev::Checksum { expect: u16::from_le_bytes([x, y]), got: u16::from_le_bytes([a, b]) }, p + 2)
    }
}

/// Unbounded scanner over a growing stream.
#[derive(Default, Clone)]
pub struct Scanner { pub s: Vec<u8>, pub pos: usize }
impl Scanner {
    pub fn feed(&mut self, b: &[u8]) { self.s.extend_from_slice(b) }
    pub fn next(&mut self) -> Option<Ev> {
        match candidate(&self.s, self.pos) {
            Cand::Full(p, l) => { let (e, n) = resolve(&self.s, p, l); self.pos = n; Some(e) },
            _ => None,
        }
    }
    /// Bytes that must be kept when no more results are available.
    pub fn tail(&self) -> usize {
        match candidate(&self.s, self.pos) { Cand::Idle => 0, Cand::Wait(p, _) => self.s.len() - p, Cand::Full(p, _) => self.s.len() - p }
    }
    pub fn all(s: &[u8]) -> (Vec<Ev>, usize) {
        let mut x = Scanner { s: s.to_vec(), pos: 0 };
        let mut v = vec![];
        while let Some(e) = x.next() { v.push(e); }
        let t = x.tail();
        (v, t)
    }
}

/// Monitors the results of a parser whose buffer holds `cap` bytes, drained after every chunk.
/// Frames that do not fit may be delivered or refused; everything else is determined.
#[derive(Clone)]
pub struct Bounded { pub s: Vec<u8>, pub pos: usize, pub cap: usize }
impl Bounded {
    pub fn new(cap: usize) -> Self { Bounded { s: vec![], pos: 0, cap } }
    pub fn feed(&mut self, b: &[u8]) { self.s.extend_from_slice(b) }
    /// Checks a result, or the absence of one with the number of bytes then buffered.
    pub fn step(&mut self, got: &Option<Ev>) -> Result<(), String> {
        let c = candidate(&self.s, self.pos);
        match (got, &c) {
            (Some(Ev::Oom(n)), Cand::Full(p, l)) if l + 8 > self.cap => {
                if *n != l + 2 { return Err(format!("out-of-memory error names {} bytes, the refused frame needs {}", n, l + 2)); }
                self.pos = p + 2; Ok(())
            },
            (Some(Ev::Oom(n)), Cand::Wait(p, Some(t))) if *t > self.cap => {
                if *n != t - 6 { return Err(format!("out-of-memory error names {} bytes, the refused frame needs {}", n, t - 6)); }
                self.pos = p + 2; Ok(())
            },
            (Some(Ev::Oom(n)), _) => Err(format!("out-of-memory error ({} bytes) with capacity {} while the candidate is {:?}", n, self.cap, c)),
            (Some(e), Cand::Full(p, l)) => {
                let (x, n) = resolve(&self.s, *p, *l);
                if x != *e { return Err(format!("got {}, expected {}", short(e), short(&x))); }
                self.pos = n; Ok(())
            },
            (Some(e), _) => Err(format!("got {}, but no complete frame is on the wire (candidate {:?}, {} bytes fed)", short(e), c, self.s.len())),
            (None, Cand::Full(p, l)) => Err(format!("no result although a complete frame of {} bytes is on the wire at {}", l + 8, p)),
            (None, Cand::Idle) => { self.pos = self.s.len(); Ok(()) },
            (None, Cand::Wait(p, t)) => {
                let keep = self.s.len() - p;
                if keep > self.cap { return Err(format!("unfinished candidate ({:?}) of {} bytes was silently given up: capacity {}", t, keep, self.cap)); }
                Ok(())
            },
        }
    }
    pub fn tail(&self) -> usize {
        match candidate(&self.s, self.pos) { Cand::Idle => 0, Cand::Wait(p, _) | Cand::Full(p, _) => self.s.len() - p }
    }
}
pub fn short(e: &Ev) -> String {
    match e {
        Ev::Frame { class, id, payload } => format!("frame {:02x}-{:02x} len {} [{}]", class, id, payload.len(), crate::run::crop(&crate::run::hex(payload), 60)),
        Ev::Checksum { expect, got } => format!("checksum error expect {:04x} got {:04x}", expect, got),
        Ev::Oom(n) => format!("out of memory {}", n),
    }
}

use ublox::{PacketRef, ParserError};
/// A parser result as an event (class and id from the packet itself, payload as reported).
pub fn event(r: Result<PacketRef, ParserError>) -> Result<Ev, String> {
    match r {
        Ok(p) => { let (class, id) = p.class_and_msg_id(); Ok(Ev::Frame { class, id, payload: crate::gen_obs::payload_of(&p).to_vec() }) },
        Err(ParserError::InvalidChecksum { expect, got }) => Ok(Ev::Checksum { expect, got }),
        Err(ParserError::OutOfMemory { required_size }) => Ok(Ev::Oom(required_size)),
        Err(e) => Err(format!("unexpected error {:?}", e)),
    }
}

/// The text of a parser error names what the error carries (and says of which value it speaks, where it uses those words).
pub fn error_text(e: &ParserError) -> Result<(), String> {
    let t = e.to_string();
    let words: Vec<String> = t.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect();
    let is = |w: &str, v: u64| w.trim_start_matches("0x").trim_start_matches('0') == format!("{:x}", v).trim_start_matches('0') || w == v.to_string();
    let named = |v: u64| words.iter().any(|w| is(w, v));
    let after = |word: &str, v: u64| words.windows(2).all(|w| !w[0].starts_with(word) || is(&w[1], v));
    let ok = match *e {
        ParserError::InvalidChecksum { expect, got } => named(expect as u64) && named(got as u64) && after("expect", expect as u64) && after("got", got as u64),
        ParserError::OutOfMemory { required_size } => named(required_size as u64),
        _ => true,
    };
    if ok { Ok(()) } else { Err(format!("{:?} is described as {:?}", e, t)) }
}

use ublox::{Parser, UnderlyingBuffer};
/// Feeds one chunk and takes at most `max` results; true if the iteration ended by itself.
pub fn take<T: UnderlyingBuffer>(p: &mut Parser<T>, chunk: &[u8], max: usize, out: &mut Vec<Ev>) -> Result<bool, String> {
    let mut it = p.consume(chunk);
    for _ in 0..max {
        match it.next() { Some(r) => out.push(event(r)?), None => return Ok(true) }
    }
    Ok(false)
}

#[cfg(any(feature = "std", feature = "alloc"))]
use ublox::FixedLinearBuffer;
#[cfg(any(feature = "std", feature = "alloc"))]
use crate::run::{viol, Case, Violation};
#[cfg(any(feature = "std", feature = "alloc"))]
/// Delivers one frame to a parser and hands the packet to `f`. Anything but exactly one packet is a violation.
pub fn with_packet<T>(c: &Case, class: u8, id: u8, pl: &[u8], f: impl FnOnce(&PacketRef) -> T) -> Result<T, Violation> {
    let fr = frame(class, id, pl);
    let one = |r: Option<Result<PacketRef, ParserError>>| match r {
        Some(Ok(p)) => Ok(f(&p)),
        Some(Err(e)) => viol("an intact frame becomes an error", format!("{:?} for frame {}", e, crate::run::hex(&fr))),
        None => viol("an intact frame is not delivered", format!("frame {}", crate::run::hex(&fr))),
    };
    // the three places a frame can be taken from: new bytes, buffered bytes, both
    match c.idx % 4 {
        0 => {
            let mut mem = vec![0x62u8; fr.len()];
            let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
            let k = (c.idx as usize / 4) % fr.len();
            let none = c.call("parsing", || p.consume(&fr[..k]).next().is_none())?;
            if !none { return viol("a result before the frame is complete", format!("frame {} cut at {}", crate::run::hex(&fr), k)); }
            c.call("parsing", || one(p.consume(&fr[k..]).next()))?
        },
        1 => {
            let mut p = Parser::default();
            let _ = c.call("parsing", || { p.consume(&fr); })?;
            c.call("parsing", || one(p.consume(&[]).next()))?
        },
        _ => {
            let mut p = Parser::default();
            c.call("parsing", || one(p.consume(&fr).next()))?
        },
    }
}
