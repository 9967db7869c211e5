#![allow(deprecated)]
//! C21: poll, acknowledge, rate and aiding helpers.
use chrono::prelude::*;
use ublox::*;
use vh::gen_obs::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

/// Class and id of a named packet from the protocol tables, not from the crate.
fn ids(name: &str) -> (u8, u8) { let p = packet(name); (p.class, p.id) }
fn poll_check(c: &Case, what: &str, class: u8, id: u8, got: &[u8]) -> Res {
    let want = frame(class, id, &[]);
    if got != want { return viol("wrong poll request", format!("{}: {} expected {}", what, hex(got), hex(&want))); }
    let mut ev = vec![];
    let mut p = Parser::default();
    let r = c.call("parsing", || take(&mut p, got, usize::MAX, &mut ev))?;
    if r.is_err() || ev != [Ev::Frame { class, id, payload: vec![] }] { return viol("a poll request does not parse back", format!("{}: {:?}", what, ev)); }
    c.count("poll requests", 1);
    Ok(())
}
fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn days(y: i64, m: u32) -> u32 { [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1] }

#[derive(Debug, Clone)]
struct Pos { lat: f64, lon: f64, alt: f64 }
#[derive(Debug, Clone)]
struct Time { y: i64, mo: u32, d: u32, h: u32, mi: u32, s: u32, ns: u32 }
fn gen_pos(r: &mut Rng) -> Pos {
    let ang = |r: &mut Rng, m: f64| match r.below(5) {
        0 => *r.pick(&[0.0, m, -m, m - 1e-7, 1e-7 - m, 1e-7, -1e-7, 5e-8, -5e-8]),
        1 => (r.below(2_000_001) as f64 - 1_000_000.0) / 1e6 * m,
        2 => (r.u32() as i32) as f64 / 2147483648.0 * m,
        3 => (r.u32() as i32) as f64 * 1e-7 * m / 214.8,
        _ => (r.below(4001) as f64 - 2000.0) / 1e7,
    };
    Pos { lat: ang(r, 90.0), lon: ang(r, 180.0), alt: match r.below(4) { 0 => *r.pick(&[0.0, -0.01, 0.01, 8848.86, -430.5, 21_000_000.0, -6_378_137.0]), 1 => (r.below(2_000_000) as f64 - 100_000.0) / 100.0, _ => (r.u32() as i32) as f64 / 1000.0 } }
}
fn gen_time(r: &mut Rng) -> Time {
    let y = 2000 + match r.below(4) { 0 => *r.pick(&[0i64, 4, 20, 24, 99, 96]), _ => r.below(100) as i64 };
    let mo = 1 + r.below(12) as u32;
    let d = match r.below(4) { 0 => 1, 1 => days(y, mo), _ => 1 + r.below(days(y, mo) as usize) as u32 };
    let u = |r: &mut Rng, n: u32| match r.below(4) { 0 => 0, 1 => n - 1, _ => r.u32() % n };
    Time { y, mo, d, h: u(r, 24), mi: u(r, 60), s: u(r, 60), ns: u(r, 1_000_000_000) }
}
fn utc(t: &Time) -> DateTime<Utc> { DateTime::<Utc>::from_utc(NaiveDate::from_ymd(t.y as i32, t.mo, t.d).and_hms_nano(t.h, t.mi, t.s, t.ns), Utc) }

fn aid(c: &mut Case) -> Res {
    let which = 1 + c.rng.below(3);
    let twice = c.rng.chance(1, 5);
    let base = c.rng.bool();
    let r = &mut c.rng;
    let b0 = || if base { AidIniBuilder::default() } else { AidIniBuilder { ecef_x_or_lat: 1, ecef_y_or_lon: -2, ecef_z_or_alt: 3, pos_accuracy: 0xdeadbeef, time_cfg: 0xa5a5, week_or_ym: 7, tow_or_hms: 9, tow_ns: -5, tm_accuracy_ms: 11, tm_accuracy_ns: 13, clk_drift_or_freq: -17, clk_drift_or_freq_accuracy: 19, flags: 0 } };
    let mut extra = 0u32;
    if !base && r.bool() { extra = r.u32(); }
    let start = || { let mut b = b0(); b.flags |= extra; b };
    let (p1, p2, t1, t2) = (gen_pos(r), gen_pos(r), gen_time(r), gen_time(r));
    let time_first = r.bool();
    let got = c.call("building aiding data", || {
        let mut b = start();
        let pos = |b: AidIniBuilder, p: &Pos| b.set_position(Position { lat: p.lat, lon: p.lon, alt: p.alt });
        if twice { if which & 1 != 0 { b = pos(b, &p2); } if which & 2 != 0 { b = b.set_time(utc(&t2)); } }
        if which & 2 != 0 && time_first { b = b.set_time(utc(&t1)); }
        if which & 1 != 0 { b = pos(b, &p1); }
        if which & 2 != 0 && !time_first { b = b.set_time(utc(&t1)); }
        b.into_packet_bytes()
    })?;
    let s = start();
    let before = (s.ecef_x_or_lat, s.ecef_y_or_lon, s.ecef_z_or_alt, s.week_or_ym, s.tow_or_hms, s.tow_ns);
    let rest = (s.pos_accuracy, s.time_cfg, s.tm_accuracy_ms, s.tm_accuracy_ns, s.clk_drift_or_freq, s.clk_drift_or_freq_accuracy);
    if got.len() != 56 || got[..] != frame(0x0b, 0x01, &got[6..54])[..] { return viol("aiding message is not a valid frame", hex(&got)); }
    let pl = &got[6..54];
    let i32at = |o: usize| i32::from_le_bytes(pl[o..o + 4].try_into().unwrap());
    let u32at = |o: usize| u32::from_le_bytes(pl[o..o + 4].try_into().unwrap());
    let u16at = |o: usize| u16::from_le_bytes(pl[o..o + 2].try_into().unwrap());
    let desc = || format!("position {:?}, time {:?}, set {}, starting from {}", p1, t1, ["", "position", "time", "both"][which], if base { "default" } else { "filled" });
    let mut flags = s.flags;
    if which & 1 != 0 {
        flags |= 1 | 1 << 5;
        for (what, got, want) in [("latitude", i32at(0), p1.lat * 1e7), ("longitude", i32at(4), p1.lon * 1e7), ("altitude", i32at(8), p1.alt * 100.0)] {
            // within one unit of the given value (the conversion may truncate or round)
            if (got as f64 - want).abs() > 1.0 + want.abs() * 1e-15 { return viol(format!("aiding {} is not the given one", what), format!("{} for {} ; {}", got, want, desc())); }
        }
        c.count("positions", 1);
    } else if (i32at(0), i32at(4), i32at(8)) != (before.0, before.1, before.2) { return viol("setting the time changes the position", desc()); }
    if which & 2 != 0 {
        flags |= 1 << 1 | 1 << 10;
        let ym = (t1.y - 2000) as u16 * 100 + t1.mo as u16;
        let dhms = t1.d * 1_000_000 + t1.h * 10_000 + t1.mi * 100 + t1.s;
        if u16at(18) != ym { return viol("aiding year and month are not the given ones", format!("{} expected {}; {}", u16at(18), ym, desc())); }
        if u32at(20) != dhms { return viol("aiding day and time are not the given ones", format!("{} expected {}; {}", u32at(20), dhms, desc())); }
        if i32at(24) != t1.ns as i32 { return viol("aiding nanoseconds are not the given ones", format!("{} expected {}; {}", i32at(24), t1.ns, desc())); }
        c.count("times", 1);
        c.seen("dates", mix((t1.y * 400) as u64 + (t1.mo * 32 + t1.d) as u64));
    } else if (u16at(18), u32at(20), i32at(24)) != (before.3, before.4, before.5) { return viol("setting the position changes the time", desc()); }
    if u32at(44) != flags { return viol("aiding sets the wrong validity flags", format!("{:#x} expected {:#x}; {}", u32at(44), flags, desc())); }
    if (u32at(12), u16at(16), u32at(28), u32at(32), i32at(36), u32at(40)) != rest { return viol("aiding helpers change another field", format!("{}; {}", hex(pl), desc())); }
    c.distinct_bytes(&got);
    if c.want_sample() { c.sample(format!("{} -> {}", desc(), hex(&got))); }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C21");
    x.boost = 5;
    x.assumptions = vec!["positions within latitude +-90, longitude +-180, altitude within the 32-bit centimetre range; times from 2000 to 2099 without leap seconds (the packed form has two digits)".into()];
    let ms = metas();
    x.section("poll requests by type", "every packet type", ms.len() as u64, |c| {
        let m = &ms[c.idx as usize];
        let (class, id) = ids(m.name);
        if (m.class, m.id) != (class, id) { return viol(format!("{} has the wrong class or id", m.name), format!("{:02x}-{:02x} expected {:02x}-{:02x}", m.class, m.id, class, id)); }
        let b = m.request;
        c.distinct(mix(c.idx));
        poll_check(c, m.name, class, id, &b)
    });
    x.section("poll requests by number", "all 65536 class and id pairs", 65_536, |c| {
        let (class, id) = ((c.idx >> 8) as u8, c.idx as u8);
        let b = c.call("request_for_unknown", || UbxPacketRequest::request_for_unknown(class, id).into_packet_bytes())?;
        c.distinct(c.idx);
        poll_check(c, "request_for_unknown", class, id, &b)
    });
    // acknowledgements: every packet type asked against all class/id pairs
    let kinds = ms.len() as u64;
    x.section("acknowledgements", "for every packet type all 256 ids of its class, all 256 classes with its id, and 400 random pairs, positive and negative; answer compared with the protocol's class and id; the acknowledgement arrives through a parser", kinds * 2, |c| {
        let m = &ms[(c.idx / 2) as usize];
        let nak = c.idx % 2 == 1;
        let (class, id) = ids(m.name);
        let mut pairs: Vec<(u8, u8)> = (0..=255).map(|i| (class, i)).chain((0..=255).map(|k| (k, id))).chain([(id, class), (class ^ 1, id ^ 1), (!class, !id), (5, 1), (5, 0), (0, 0)]).collect();
        for _ in 0..400 { pairs.push((c.rng.u8(), c.rng.u8())); }
        for (k, i) in pairs {
            let want = (k, i) == (class, id);
            let f = frame(5, !nak as u8, &[k, i]);
            let mut p = Parser::default();
            let mut it = p.consume(&f);
            let yes = match c.call("parsing", || it.next().map(|r| match r {
                Ok(PacketRef::AckAck(a)) if !nak => Some(is_ack(m.name, &a)),
                Ok(PacketRef::AckNak(a)) if nak => Some(is_nak(m.name, &a)),
                _ => None,
            }))? { Some(Some(y)) => y, _ => return viol("an acknowledgement is not delivered as such", hex(&f)) };
            if yes != want { return viol(format!("acknowledgement helper is wrong for {}", m.name), format!("asked about {:02x}-{:02x}, acknowledged {:02x}-{:02x}, negative {}: answered {}", class, id, k, i, nak, yes)); }
            c.count(if yes { "matching acknowledgements" } else { "other acknowledgements" }, 1);
        }
        c.evals(917);
        c.distinct(mix(c.idx));
        Ok(())
    });
    let n = x.n(200, 4_000) * kinds;
    x.section("message rates", "every packet type with random rates, single port and all ports", n, |c| {
        let m = &ms[(c.idx % kinds) as usize];
        let (class, id) = ids(m.name);
        let r1 = c.rng.u8();
        let mut r6 = [0u8; 6];
        for r in &mut r6 { *r = c.rng.u8(); }
        let a = c.call("set_rate_for", || rate_single(m.name, r1))?;
        let b = c.call("set_rate_for", || rate_all(m.name, r6))?;
        let (wa, mut wb) = (frame(6, 1, &[class, id, r1]), vec![class, id]);
        wb.extend(r6);
        let wb = frame(6, 1, &wb);
        if a != wa { return viol(format!("wrong rate message for {}", m.name), format!("{} expected {}", hex(&a), hex(&wa))); }
        if b != wb { return viol(format!("wrong all-ports rate message for {}", m.name), format!("{} expected {}", hex(&b), hex(&wb))); }
        c.count("rate messages", 2);
        c.distinct_bytes(&b);
        Ok(())
    });
    let n = x.n(300_000, 15_000_000);
    x.section("aiding", "random positions and times, both orders, set once or twice, on default and filled builders", n, aid);
    x.section("aiding calendar", "every day of 2000-2099, with random times of day", 36_525, |c| {
        let mut k = c.idx as u32;
        let (mut y, mut mo) = (2000i64, 1u32);
        while k >= days(y, mo) { k -= days(y, mo); mo += 1; if mo > 12 { mo = 1; y += 1; } }
        let mut t = gen_time(&mut c.rng);
        t.y = y; t.mo = mo; t.d = k + 1;
        let got = c.call("set_time", || AidIniBuilder::default().set_time(utc(&t)).into_packet_bytes())?;
        let (ym, dh) = (u16::from_le_bytes([got[24], got[25]]), u32::from_le_bytes(got[26..30].try_into().unwrap()));
        if (ym as i64, dh) != ((y - 2000) * 100 + mo as i64, (k + 1) * 1_000_000 + t.h * 10_000 + t.mi * 100 + t.s) { return viol("aiding date is not the given one", format!("{:?}: {} {}", t, ym, dh)); }
        c.count("calendar days", 1);
        c.distinct(c.idx);
        Ok(())
    });
    x.require("poll requests", 65_536);
    x.require("matching acknowledgements", 100);
    x.require("positions", 100_000);
    x.require("times", 100_000);
    x.finish()
}
