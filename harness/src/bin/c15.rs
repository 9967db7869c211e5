//! C15: conversions to position, velocity and time.
use chrono::{DateTime, Utc};
use std::convert::TryFrom;
use ublox::*;
use vh::frames::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

fn int(p: &PacketSpec, name: &str, pl: &[u8]) -> i128 {
    let f = p.fields.iter().find(|f| f.name == name).unwrap_or_else(|| panic!("harness: {}.{}", p.name, name));
    match raw(f, pl) { vh::obs::Val::Int(i) => i, v => panic!("harness: {:?}", v) }
}
/// `units` counts steps of 10^-digits: the exact number is units / 10^digits.
fn exact(c: &Case, p: &PacketSpec, what: &str, got: f64, units: i128, digits: i32, pl: &[u8]) -> Res {
    // numbers involved are below 2^53, so this quotient is the nearest double
    let want = units as f64 / 10f64.powi(digits);
    c.count("numbers compared", 1);
    // a few roundings of sums and products, far below one step
    if !((got - want).abs() <= want.abs() * 4e-15 + 2e-13) { return viol(format!("{} of a position/velocity from {}", what, p.name), format!("{:.12} expected {:.12} (error {:e}); payload {}", got, want, got - want, hex(pl))); }
    Ok(())
}
fn positions(c: &mut Case, name: &'static str, fill: Fill) -> Res {
    let p = packet(name);
    let mut pl = payload(&mut c.rng, p, fill);
    if c.rng.chance(1, 3) {
        // ordinary coordinates, high precision parts of any value
        for f in p.fields { if f.ty == Ty::I32 { let m = match f.name { "lon" => 1_800_000_000i64, "lat" => 900_000_000, "heading" => 36_000_000, _ => 10_000_000 }; let v = (c.rng.below(2 * m as usize) as i64 - m) as i32; pl[f.off..f.off + 4].copy_from_slice(&v.to_le_bytes()); } }
    }
    c.distinct(hash_bytes(&pl) ^ hash_bytes(name.as_bytes()));
    let got = with_packet(c, p.class, p.id, &pl, |q| match q {
        PacketRef::NavPosLlh(x) => { let a = Position::from(x); Some((vec![("longitude", a.lon), ("latitude", a.lat), ("height", a.alt)], vec![])) },
        PacketRef::NavHpPosLlh(x) => { let a = Position::from(x); Some((vec![("longitude", a.lon), ("latitude", a.lat), ("height", a.alt)], vec![])) },
        PacketRef::NavHpPosEcef(x) => { let a = PositionECEF::from(x); Some((vec![("x", a.x), ("y", a.y), ("z", a.z)], vec![])) },
        PacketRef::NavVelNed(x) => { let v = Velocity::from(x); Some((vec![], vec![("speed", v.speed), ("heading", v.heading)])) },
        PacketRef::NavPvt(x) => { let a = Position::from(x); let v = Velocity::from(x); Some((vec![("longitude", a.lon), ("latitude", a.lat), ("height", a.alt)], vec![("speed", v.speed), ("heading", v.heading)])) },
        _ => None,
    })?;
    let got = match got { Some(g) => g, None => return viol(format!("{} is delivered as another packet", name), hex(&pl)) };
    for (w, g) in got.0.iter().chain(&got.1) {
        let i = |n| int(p, n, &pl);
        let (units, digits) = match (name, *w) {
            ("NavHpPosLlh", "longitude") => (i("lon") * 100 + i("lon_hp"), 9),
            ("NavHpPosLlh", "latitude") => (i("lat") * 100 + i("lat_hp"), 9),
            ("NavHpPosLlh", "height") => (i("height_msl") * 10 + i("height_hp_msl"), 4),
            (_, "longitude") => (i("lon"), 7),
            (_, "latitude") => (i("lat"), 7),
            (_, "height") => (i("height_msl"), 3),
            (_, "x") => (i("ecef_x") * 100 + i("ecef_x_hp"), 4),
            (_, "y") => (i("ecef_y") * 100 + i("ecef_y_hp"), 4),
            (_, "z") => (i("ecef_z") * 100 + i("ecef_z_hp"), 4),
            ("NavVelNed", "speed") => (i("ground_speed"), 2),
            ("NavPvt", "speed") => (i("ground_speed"), 3),
            (_, "heading") => (i("heading"), 5),
            x => panic!("harness: {:?}", x),
        };
        exact(c, p, w, *g, units, digits, &pl)?;
    }
    if c.want_sample() { c.sample(format!("{} {} -> {:?}", name, hex(&pl), got)); }
    Ok(())
}
fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn mdays(y: i64, m: i64) -> i64 { match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap(y) { 29 } else { 28 }, _ => 0 } }
/// Days from 1970-01-01, by counting years and months.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let before = |y: i64| { let z = y - 1; 365 * y + if z >= 0 { z / 4 - z / 100 + z / 400 + 1 } else { 0 } }; // days before year y, from year 0
    before(y) - before(1970) + (1..m).map(|k| mdays(y, k)).sum::<i64>() + d - 1
}
#[derive(Clone, Copy, Debug)]
struct T { y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64, ns: i64 }
fn time(c: &mut Case, t: T) -> Res {
    let p = packet("NavPvt");
    let mut pl = payload(&mut c.rng, p, Fill::Random);
    pl[4..6].copy_from_slice(&(t.y as u16).to_le_bytes());
    for (o, v) in [(6, t.mo), (7, t.d), (8, t.h), (9, t.mi), (10, t.s)] { pl[o] = v as u8; }
    pl[16..20].copy_from_slice(&(t.ns as i32).to_le_bytes());
    c.distinct_bytes(&pl[4..20]);
    let r = with_packet(c, p.class, p.id, &pl, |q| match q { PacketRef::NavPvt(x) => Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| DateTime::<Utc>::try_from(x)))), _ => None })?;
    let r = match r { Some(Ok(r)) => r, Some(Err(_)) => return viol("conversion to time panics", format!("{:?}: {}", t, take_panic())), None => return viol("NavPvt is delivered as another packet", hex(&pl)) };
    let date = t.mo >= 1 && t.mo <= 12 && t.d >= 1 && t.d <= mdays(t.y, t.mo);
    let clock = t.h < 24 && t.mi < 60 && t.s < 60;
    let nanos = t.ns.abs() < 1_000_000_000;
    // a leap second is valid for the protocol and unknown to the time library: either answer is accepted
    if t.s == 60 { c.count("leap seconds (not judged)", 1); return Ok(()); }
    match r {
        Ok(dt) => {
            if !(date && clock && nanos) { return viol("a time is produced from an invalid part", format!("{:?} -> {}", t, dt)); }
            let total = (days(t.y, t.mo, t.d) * 86400 + t.h * 3600 + t.mi * 60 + t.s) as i128 * 1_000_000_000 + t.ns as i128;
            let got = dt.timestamp() as i128 * 1_000_000_000 + dt.timestamp_subsec_nanos() as i128;
            if total != got { return viol("a wrong instant", format!("{:?} -> {} ({} ns since 1970, expected {})", t, dt, got, total)); }
            c.count("instants compared", 1);
            if t.ns < 0 && t.s == 0 { c.count("instants with a borrow", 1); }
            if c.want_sample() { c.sample(format!("{:?} -> {}", t, dt)); }
        },
        Err(e) => {
            if date && clock && nanos { return viol("no time although all parts are valid", format!("{:?}: {:?}", t, e)); }
            let ok = match e { DateTimeError::InvalidDate => !date, DateTimeError::InvalidTime => !clock, DateTimeError::InvalidNanoseconds => !nanos };
            if !ok { return viol("the error names a valid part", format!("{:?}: {:?}", t, e)); }
            let text = e.to_string().to_lowercase();
            let ok = match e { DateTimeError::InvalidDate => text.contains("date"), DateTimeError::InvalidTime => text.contains("time"), DateTimeError::InvalidNanoseconds => text.contains("nano") };
            if !ok { return viol("the text of the error does not name the invalid part", format!("{:?}: {:?} {:?}", t, e, text)); }
            c.count("invalid times refused", 1);
        },
    }
    Ok(())
}
fn nanos(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0, 1 => r.below(1_000_000_000) as i64, 2 => -(r.below(1_000_000_000) as i64),
        3 => *r.pick(&[-1, 1, 999_999_999, -999_999_999, 1_000_000_000, -1_000_000_000, 1_000_000_001, -1_000_000_001, i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64]),
        4 => r.u32() as i32 as i64,
        _ => -(r.below(1000) as i64),
    }
}
fn main() {
    let mut x = Ctx::new("C15");
    x.boost = 5;
    x.assumptions = vec!["numbers compared with exact decimal sums up to a few double roundings (4e-15 relative + 2e-13)".into(), "time library's timestamps trusted; second 60 is not judged".into()];
    for name in ["NavPosLlh", "NavHpPosLlh", "NavHpPosEcef", "NavVelNed", "NavPvt"] {
        let n = x.n(60_000, 4_000_000);
        x.section(&format!("numbers of {}", name), "coordinates, heights and velocities: ordinary, corner and random values with all high-precision parts", n, |c| { let f = if c.rng.bool() { Fill::Corner } else { Fill::Random }; positions(c, name, f) });
    }
    let n = x.n(400_000, 20_000_000);
    x.section("times", "valid and invalid dates, times, nanoseconds", n, |c| {
        let r = &mut c.rng;
        let y = match r.below(6) { 0 => *r.pick(&[0i64, 1, 4, 100, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1980, 2000, 2038, 2100, 2400, 9999, 65535]), 1 => r.below(65536) as i64, _ => r.range(1999, 2099) as i64 };
        let wild = r.chance(1, 3);
        let mo = if wild { r.below(18) as i64 } else { r.range(1, 12) as i64 };
        let d = if wild { r.below(36) as i64 } else { match r.below(4) { 0 => 1, 1 => mdays(y, mo), 2 => 28 + r.below(4) as i64, _ => r.range(1, 28) as i64 } };
        let (h, mi, s) = if wild && r.bool() { (*r.pick(&[0i64, 23, 24, 25, 255, 5]), *r.pick(&[0i64, 59, 60, 255, 5]), *r.pick(&[0i64, 59, 61, 62, 255, 60])) } else if r.chance(1, 3) { (0, 0, 0) } else { (r.below(24) as i64, r.below(60) as i64, r.below(60) as i64) };
        let ns = nanos(r);
        time(c, T { y, mo, d, h, mi, s, ns })
    });
    x.section("calendar", "every day field 0..32 of every month field 0..13 of 400 years (quick: of 40 years) around leap years, at the start of the day with a negative nanosecond part", x.n(44, 404) * 14 * 33, |c| {
        let i = c.idx as i64;
        let (d, mo) = (i % 33, i / 33 % 14);
        let k = i / 33 / 14;
        let y = if c.thorough { 1896 + k } else { [1900, 2000, 2100, 2004][(k % 4) as usize] + k / 4 };
        time(c, T { y, mo, d, h: 0, mi: 0, s: 0, ns: -1 })?;
        time(c, T { y, mo, d, h: 23, mi: 59, s: 59, ns: 999_999_999 })
    });
    x.section("bytes of the date and time", "every value of each one-byte date and time field", 5 * 256, |c| {
        let v = (c.idx / 5) as i64;
        let mut t = T { y: 2024, mo: 3, d: 1, h: 0, mi: 0, s: 0, ns: -5 };
        match c.idx % 5 { 0 => t.mo = v, 1 => t.d = v, 2 => t.h = v, 3 => t.mi = v, _ => t.s = v }
        time(c, t)
    });
    x.require("numbers compared", 500_000);
    x.require("instants compared", 100_000);
    x.require("instants with a borrow", 10_000);
    x.require("invalid times refused", 50_000);
    x.finish()
}
