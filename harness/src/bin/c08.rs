//! C08: no byte sequence makes the library panic.
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use ublox::*;
use vh::frames::*;
use vh::gen_spec::*;
use vh::model::*;
use vh::obs::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

/// The recorded finding: reserved UART data-bit or parity encodings.
fn known_uart(kind: &str, op: &str, pl: &[u8], at: &str) -> Option<Violation> {
    if kind != "CfgPrtUart" || pl.len() != 20 { return None; }
    let w = le(&pl[4..8]);
    if vh::spec::uart_mode(w).is_some() || !(at.contains("five data bits") || at.contains("six data bits") || at.contains("reserved")) { return None; }
    Some(Violation { sig: "CfgPrtUart with reserved data-bits or parity encoding: mode() panics (unimplemented)".into(), detail: format!("{} on mode word {:#x} at {}", op, w, at) })
}
fn op<T>(c: &Case, n: &mut u64, kind: &str, pl: &[u8], what: &str, f: impl FnOnce() -> T) -> Res {
    *n += 1;
    if catch_unwind(AssertUnwindSafe(|| { let _ = f(); })).is_ok() { return Ok(()); }
    report(c, kind, pl, what, &take_panic())
}
fn report(c: &Case, kind: &str, pl: &[u8], what: &str, at: &str) -> Res {
    if at.contains("harness:") { panic!("harness: {} {}", what, at); }
    if let Some(v) = known_uart(kind, what, pl, at) { return c.known_or(v); }
    viol(format!("panic in {}: {}", kind, what), format!("{} of {} at {}; payload ({} bytes) {}", what, kind, at, pl.len(), hex(pl)))
}
/// Uses a delivered packet in every way the public interface offers.
fn exercise(c: &Case, p: &PacketRef) -> Res {
    let mut n = 0;
    let o = vh::gen_obs::observe(p);
    let (kind, pl) = (o.kind, &o.bytes[..]);
    n += o.vals.len() as u64;
    let mut rest = o.vals.clone();
    while let Some((path, at)) = find_panic(&rest, "") {
        report(c, kind, pl, &path, &at)?;
        let top = path.split('.').next().unwrap().to_string();
        rest.retain(|v| v.0 != top);
    }
    op(c, &mut n, kind, pl, "debug formatting", || format!("{:?}", p))?;
    if c.idx % 8 == 0 { op(c, &mut n, kind, pl, "pretty debug formatting", || format!("{:#?}", p))?; }
    op(c, &mut n, kind, pl, "class_and_msg_id", || p.class_and_msg_id())?;
    op(c, &mut n, kind, pl, "serialization", || serde_json::to_string(p).map(|s| s.len()))?;
    if c.idx % 4 == 0 { op(c, &mut n, kind, pl, "inner serialization", || vh::gen_obs::inner_json(p).map(|s| s.len()))?; }
    op(c, &mut n, kind, pl, "rebuilding from accessors", || vh::gen_build::rebuild(p))?;
    match p {
        PacketRef::NavPosLlh(x) => op(c, &mut n, kind, pl, "conversion to position", || format!("{:?}", Position::from(x)))?,
        PacketRef::NavHpPosLlh(x) => op(c, &mut n, kind, pl, "conversion to position", || format!("{:?}", Position::from(x)))?,
        PacketRef::NavHpPosEcef(x) => op(c, &mut n, kind, pl, "conversion to position", || format!("{:?}", PositionECEF::from(x)))?,
        PacketRef::NavVelNed(x) => op(c, &mut n, kind, pl, "conversion to velocity", || format!("{:?}", Velocity::from(x)))?,
        PacketRef::NavPvt(x) => {
            op(c, &mut n, kind, pl, "conversion to position", || format!("{:?}", Position::from(x)))?;
            op(c, &mut n, kind, pl, "conversion to velocity", || format!("{:?}", Velocity::from(x)))?;
            op(c, &mut n, kind, pl, "conversion to time", || chrono::DateTime::<chrono::Utc>::try_from(x).map(|d| d.timestamp()).map_err(|e| e.to_string()))?;
        },
        PacketRef::AckAck(x) => op(c, &mut n, kind, pl, "is_ack_for", || x.is_ack_for::<CfgPrtUart>())?,
        PacketRef::AckNak(x) => op(c, &mut n, kind, pl, "is_nak_for", || x.is_nak_for::<CfgPrtUart>())?,
        _ => {},
    }
    c.count("read-side operations", n);
    c.count("packets exercised", 1);
    c.seen("packet types", hash_bytes(kind.as_bytes()));
    c.distinct(hash_bytes(pl) ^ hash_bytes(kind.as_bytes()));
    Ok(())
}
fn one(c: &mut Case, class: u8, id: u8, pl: &[u8]) -> Res {
    let pl = &pl[..pl.len().min(MAX)];
    let fr = frame(class, id, pl);
    let mut p = Parser::default();
    c.call("parsing", || { let mut it = p.consume(&fr); while let Some(r) = it.next() { match r { Ok(q) => exercise(c, &q)?, Err(e) => { let _ = format!("{} {:?}", e, e); } } } Ok(()) })?
}
fn drive<T: UnderlyingBuffer>(c: &Case, p: &mut Parser<T>, s: &[u8], cuts: &[usize], takes: &[usize]) -> Res {
    let mut from = 0;
    for (i, n) in cuts.iter().enumerate() {
        let chunk = &s[from..from + n];
        from += n;
        let r: Result<Res, Violation> = c.call("parsing", || {
            let mut it = p.consume(chunk);
            for _ in 0..takes[i % takes.len()] {
                match it.next() {
                    Some(Ok(q)) => exercise(c, &q)?,
                    Some(Err(e)) => { let _ = format!("{} {:?}", e, e); c.count("parser errors formatted", 1); },
                    None => break,
                }
            }
            Ok(())
        });
        r??;
        let _ = (p.is_buffer_empty(), p.buffer_len());
    }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C08");
    x.boost = 3;
    x.assumptions = vec!["built with debug assertions and overflow checks, so arithmetic overflow counts as a panic".into(), "fixed buffers from 4 bytes (the documented minimum)".into()];
    let ord = order();
    let k = ord.len() as u64;
    let per = x.n(2_500, 120_000);
    x.section("payloads of every packet", "every received packet with random, corner, constant payloads, including reserved encodings everywhere, at valid lengths and beside them; every accessor, nested record, formatting, serialization, conversion", per * k, |c| {
        let p = ord[(c.idx % k) as usize];
        let q = if p.name == "MgaGpsEPH" { packet("MgaGpsEph") } else { p };
        let fill = if c.rng.bool() { Fill::Corner } else { Fill::Random };
        let mut pl = payload(&mut c.rng, q, fill);
        // reserved encodings, without losing validity
        for f in q.fields { if let Conv::Custom("UartMode") = f.conv { if c.rng.bool() { let w = c.rng.u32(); pl[f.off..f.off + 4].copy_from_slice(&w.to_le_bytes()); } } }
        match c.rng.below(12) { 0 => { pl.pop(); }, 1 => { let n = c.rng.range(1, 40); let b = c.rng.bytes(n); pl.extend(b); }, 2 => { let n = pl.len(); let keep = q.min.min(n); let b = c.rng.bytes(n - keep); pl.truncate(keep); pl.extend(b); }, _ => {} }
        one(c, p.class, p.id, &pl)
    });
    let bytes: Vec<(&PacketSpec, usize)> = ord.iter().filter(|p| p.name != "MgaGpsEPH").flat_map(|p| p.fields.iter().filter(|f| f.size > 0).flat_map(move |f| (f.off..f.off + f.size).map(move |o| (*p, o)))).collect();
    let nb = bytes.len() as u64;
    let per = x.n(64, 2560);
    x.section("all byte values", "every payload byte of every packet takes all values (quick: a quarter), the rest random", nb * per, |c| {
        let (p, o) = bytes[(c.idx % nb) as usize];
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        let i = c.idx / nb;
        pl[o] = if c.thorough { i as u8 } else { (i * 4 + c.rng.below(4) as u64) as u8 };
        one(c, p.class, p.id, &pl)
    });
    let n = x.n(12_000, 600_000);
    x.section("hostile streams", "hostile segments and raw noise through growable and fixed buffers (4 bytes up), random partitions, iterators dropped after 0-3 results or drained", n, |c| {
        let n = c.rng.range(1, 8);
        let s = match c.rng.below(4) { 0 => { let n = c.rng.below(300); dense(&mut c.rng, n) }, 1 => { let n = c.rng.below(400); c.rng.bytes(n) }, _ => stream(&mut c.rng, n, c.idx % 50 == 0) };
        let cuts = chunks(&mut c.rng, s.len());
        let takes = if c.rng.bool() { vec![usize::MAX] } else { (0..7).map(|_| *c.rng.pick(&[0, 0, 1, 1, 2, 3, usize::MAX])).collect() };
        c.distinct_bytes(&s);
        if c.want_sample() { c.sample(format!("{} bytes, {} chunks, takes {:?}", s.len(), cuts.len(), takes)); }
        if c.rng.bool() { return drive(c, &mut Parser::default(), &s, &cuts, &takes); }
        let cap = *c.rng.pick(&[4usize, 5, 6, 7, 8, 9, 12, 16, 20, 36, 64, 100, 500, 9000]);
        let mut mem = vec![0u8; cap];
        drive(c, &mut Parser::new(FixedLinearBuffer::new(&mut mem)), &s, &cuts, &takes)
    });
    // every value of the date and time fields that a receiver can send
    let n = x.n(200_000, 4_000_000);
    x.section("times", "navigation solutions with arbitrary, boundary and impossible dates, times and nanoseconds", n, |c| {
        let p = packet("NavPvt");
        let mut pl = payload(&mut c.rng, p, Fill::Corner);
        let y: u16 = *c.rng.pick(&[0, 1, 1969, 1970, 1999, 2000, 2024, 2100, 9999, 65535, 65534]);
        pl[4..6].copy_from_slice(&y.to_le_bytes());
        for (o, m) in [(6usize, 14usize), (7, 33), (8, 26), (9, 62), (10, 63)] { pl[o] = if c.rng.chance(1, 8) { c.rng.u8() } else { c.rng.below(m) as u8 }; }
        let ns: i32 = *c.rng.pick(&[i32::MIN, i32::MAX, 0, -1, 1, 999_999_999, -999_999_999, 1_000_000_000, -1_000_000_000, i32::MIN + 1]);
        pl[16..20].copy_from_slice(&ns.to_le_bytes());
        let fr = frame(p.class, p.id, &pl);
        let mut ps = Parser::default();
        c.distinct_bytes(&pl[4..20]);
        c.call("conversion to time", || { if let Some(Ok(PacketRef::NavPvt(x))) = ps.consume(&fr).next() { let _ = chrono::DateTime::<chrono::Utc>::try_from(&x); c.count("times converted", 1); } })
    });
    x.require("read-side operations", 3_000_000);
    x.require("times converted", 100_000);
    x.finish()
}
