//! C26: values that can be both serialized and deserialized read back as themselves.
use serde::{de::DeserializeOwned, Serialize};
use ublox::*;
use vh::rng::*;
use vh::run::*;

/// One value through JSON text, pretty text, a value tree, and two binary formats; `show` is everything observable about it.
fn back<T: Serialize + DeserializeOwned>(c: &Case, what: &str, v: &T, show: impl Fn(&T) -> String) -> Res {
    let want = show(v);
    let bad = |how: &str, d: String| viol(format!("{} does not read back from its own serialization", what), format!("{} {}: {}", how, want, crop(&d, 400)));
    let text = match c.call("serialization", || serde_json::to_string(v))? { Ok(t) => t, Err(e) => return bad("serializing", e.to_string()) };
    let pretty = match c.call("serialization", || serde_json::to_string_pretty(v))? { Ok(t) => t, Err(e) => return bad("serializing", e.to_string()) };
    let tree = match c.call("serialization", || serde_json::to_value(v))? { Ok(t) => t, Err(e) => return bad("serializing", e.to_string()) };
    for (how, r) in [("text", c.call("deserialization", || serde_json::from_str::<T>(&text))?), ("pretty text", c.call("deserialization", || serde_json::from_str::<T>(&pretty))?),
        ("reader", c.call("deserialization", || serde_json::from_reader::<_, T>(text.as_bytes()))?), ("tree", c.call("deserialization", || serde_json::from_value::<T>(tree))?)] {
        match r { Ok(g) => { let g = show(&g); if g != want { return bad(how, format!("{} read back as {}", text, g)); } }, Err(e) => return bad(how, format!("{} from {}", e, text)) }
        c.count("values read back", 1);
    }
    // formats that are not for people: one of positions, one of names
    let bytes = match c.call("serialization", || bincode::serialize(v))? { Ok(t) => t, Err(e) => return bad("serializing as bytes", e.to_string()) };
    let mut cbor = vec![];
    if let Err(e) = c.call("serialization", || ciborium::into_writer(v, &mut cbor))? { return bad("serializing as CBOR", e.to_string()); }
    for (how, from, r) in [("bytes", &bytes, c.call("deserialization", || bincode::deserialize::<T>(&bytes).map_err(|e| e.to_string()))?),
        ("CBOR", &cbor, c.call("deserialization", || ciborium::from_reader::<T, _>(&cbor[..]).map_err(|e| e.to_string()))?)] {
        match r { Ok(g) => { let g = show(&g); if g != want { return bad(how, format!("{} read back as {}", hex(from), g)); } }, Err(e) => return bad(how, format!("{} from {}", e, hex(from))) }
        c.count("values read back", 1);
    }
    c.seen("types", hash_bytes(what.as_bytes()));
    c.seen("texts", hash_bytes(text.as_bytes()));
    c.distinct(hash_bytes(text.as_bytes()) ^ hash_bytes(what.as_bytes()));
    if c.want_sample() { c.sample(format!("{} {}", what, crop(&text, 200))); }
    Ok(())
}
fn back_bits<T: Serialize + DeserializeOwned + std::fmt::Debug>(c: &Case, what: &str, v: &T, same: impl Fn(&T) -> bool) -> Res {
    let bytes = c.call("serialization", || bincode::serialize(v))?.map_err(|e| e.to_string());
    let mut cbor = vec![];
    let w = c.call("serialization", || ciborium::into_writer(v, &mut cbor))?.map_err(|e| e.to_string());
    let a = c.call("deserialization", || bytes.and_then(|b| bincode::deserialize::<T>(&b).map_err(|e| e.to_string())))?;
    let b = c.call("deserialization", || w.and_then(|_| ciborium::from_reader::<T, _>(&cbor[..]).map_err(|e| e.to_string())))?;
    for (how, r) in [("bytes", a), ("CBOR", b)] {
        match r { Ok(g) if same(&g) => c.count("values read back", 1), r => return viol(format!("{} does not read back from its own serialization", what), format!("{}: {:?} read back as {:?}", how, v, r)) }
    }
    Ok(())
}
fn hostile(r: &mut Rng) -> serde_json::Value {
    use serde_json::{json, Value};
    match r.below(12) {
        0 => Value::Null, 1 => json!(r.bool()), 2 => json!(r.u8()), 3 => json!(r.u64()), 4 => json!(-(r.u32() as i64)), 5 => json!(1.5), 6 => json!(f64::from_bits(r.u64())),
        7 => json!(["Seven", "Eight", "None", "Odd", "Active", "Healthy", "Unknown", "Other", "Half", "active", "", "Ünknown"][r.below(12)]),
        8 => { let n = r.below(4); Value::Array((0..n).map(|_| hostile(r)).collect()) },
        9 => { let n = r.below(3); Value::Object((0..n).map(|_| (["Unknown", "Other", "lon", "parity", "enable"][r.below(5)].to_string(), hostile(r))).collect()) },
        10 => json!(u32::MAX as u64 + r.below(3) as u64), _ => json!(r.below(20)),
    }
}
fn alter(v: &mut serde_json::Value, r: &mut Rng) {
    use serde_json::Value;
    if r.chance(1, 4) { *v = hostile(r); return; }
    match v {
        Value::Object(m) => {
            let k: Vec<String> = m.keys().cloned().collect();
            if k.is_empty() { return; }
            let k = &k[r.below(k.len())];
            match r.below(5) { 0 => { m.remove(k); }, 1 => { m.insert(["extra", "Lon", ""][r.below(3)].into(), hostile(r)); }, _ => alter(m.get_mut(k).unwrap(), r) }
        },
        Value::Array(a) if !a.is_empty() => { let i = r.below(a.len()); alter(&mut a[i], r) },
        _ => *v = hostile(r),
    }
}
/// The text with the entries of every object in another order.
fn shuffled(v: &serde_json::Value, r: &mut Rng) -> String {
    match v {
        serde_json::Value::Object(m) => {
            let mut p: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", serde_json::json!(k), shuffled(v, r))).collect();
            for i in (1..p.len()).rev() { let j = r.below(i + 1); p.swap(i, j); }
            format!("{{{}}}", p.join(" , "))
        },
        serde_json::Value::Array(a) => format!("[{}]", a.iter().map(|v| shuffled(v, r)).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}
fn altered<T: Serialize + DeserializeOwned + std::fmt::Debug>(c: &mut Case, what: &str, v: T) -> Res {
    let mut tree = match serde_json::to_value(&v) { Ok(t) => t, Err(e) => return viol(format!("{} cannot be serialized", what), e.to_string()) };
    let mut r = c.rng.clone();
    let t = shuffled(&tree, &mut r);
    match c.call("deserialization", || serde_json::from_str::<T>(&t))? {
        Ok(g) if dbg(&g) == dbg(&v) => {},
        g => return viol(format!("{} read with its entries in another order is not the value", what), format!("{:?} -> {} -> {:?}", v, t, g)),
    }
    c.count("values read back", 1);
    alter(&mut tree, &mut r);
    let t = tree.to_string();
    match c.call("deserialization", || serde_json::from_str::<T>(&t))? {
        Ok(g) => {
            // what was understood can be stored again
            let u = c.call("serialization", || serde_json::to_string(&g))?.map_err(|e| e.to_string());
            match u.clone().and_then(|u| serde_json::from_str::<T>(&u).map_err(|e| e.to_string())) {
                Ok(h) if dbg(&h) == dbg(&g) || u.as_ref().map_or(false, |u| u.contains('.') || u.contains('e')) => c.count("altered texts understood", 1),
                h => return viol(format!("{} read from a text does not read back from its own serialization", what), format!("{} -> {:?} -> {:?} -> {:?}", t, g, u, h)),
            }
        },
        Err(_) => c.count("altered texts refused", 1),
    }
    c.distinct_bytes(t.as_bytes());
    Ok(())
}
fn dbg<T: std::fmt::Debug>(t: &T) -> String { format!("{:?}", t) }
/// What goes on the wire for an interference configuration.
fn itfm(a: Option<CfgItfmConfig>, b: Option<CfgItfmConfig2>) -> String {
    let f = CfgItfmBuilder { config: a.unwrap_or_else(|| CfgItfmConfig::from(0)), config2: b.unwrap_or_else(|| CfgItfmConfig2::from(0)) }.into_packet_bytes();
    hex(&f)
}
fn uart(m: UartMode) -> String { hex(&CfgPrtUartBuilder { portid: UartPortId::Uart1, reserved0: 0, tx_ready: 0, mode: m, baud_rate: 9600, in_proto_mask: InProtoMask::all(), out_proto_mask: OutProtoMask::all(), flags: 0, reserved5: 0 }.into_packet_bytes()) }
fn num(r: &mut Rng, big: f64) -> f64 {
    match r.below(6) { 0 => 0.0, 1 => -0.0, 2 => (r.u32() as i32) as f64 * 1e-7, 3 => (r.u32() as i32) as f64 * 1e-9, 4 => (r.u64() as f64 / u64::MAX as f64 - 0.5) * 2.0 * big, _ => { let f = f64::from_bits(r.u64()); if f.abs() < 1e290 && f.abs() > 1e-290 { f } else { 1.5 } } }
}
fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 2e-15 * a.abs().max(b.abs()) }

fn main() {
    let mut x = Ctx::new("C26");
    x.boost = 5;
    x.assumptions = vec!["JSON through serde_json, bytes through bincode, CBOR through ciborium; floating-point numbers in text are compared up to a relative 2e-15 and drawn between 1e-290 and 1e290 (the reader's own rounding)".into()];
    use DataBits as D; use Parity as P; use StopBits as S;
    x.section("serial port modes", "every combination of data bits, parity and stop bits, whole and part by part; the mode read back encodes to the same frame", 2 * 3 * 4, |c| {
        let i = c.idx as usize;
        let (d, p, s) = ([D::Seven, D::Eight][i % 2], [P::Even, P::Odd, P::None][i / 2 % 3], [S::One, S::OneHalf, S::Two, S::Half][i / 6]);
        back(c, "UartMode", &UartMode::new(d, p, s), |m| format!("{:?} {}", m, uart(*m)))?;
        back(c, "DataBits", &d, dbg)?; back(c, "Parity", &p, dbg)?; back(c, "StopBits", &s, dbg)
    });
    x.section("antenna settings", "every antenna setting, also by name", 3, |c| {
        let a = [CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][c.idx as usize];
        back(c, "CfgItfmAntennaSettings", &a, dbg)?;
        match serde_json::from_str::<CfgItfmAntennaSettings>(&format!("\"{:?}\"", a)) { Ok(b) if dbg(&b) == dbg(&a) => {}, r => return viol("an antenna setting given by name is not understood", format!("{:?}: {:?}", a, r.map_err(|e| e.to_string()))) }
        for bad in ["3", "-1", "255", "\"Other\"", "null", "1.5"] { if let Ok(v) = serde_json::from_str::<CfgItfmAntennaSettings>(bad) { return viol("an impossible antenna setting is accepted", format!("{} -> {:?}", bad, v)); } }
        Ok(())
    });
    let n = x.n(60_000, 3_000_000);
    x.section("interference configurations", "both configuration words from any 32-bit word, built from their parts, and the thresholds and reserved parts alone", n, |c| {
        let w = match c.rng.below(3) { 0 => c.rng.u32(), 1 => 1 << c.rng.below(32), _ => !(1u32 << c.rng.below(32)) };
        let a = CfgItfmConfig::from(w);
        back(c, "CfgItfmConfig", &a, |v| format!("{:?} {}", v, itfm(Some(*v), None)))?;
        let b = CfgItfmConfig2::from(w);
        back(c, "CfgItfmConfig2", &b, |v| format!("{:?} {}", v, itfm(None, Some(*v))))?;
        let b = CfgItfmConfig2::new([CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][c.rng.below(3)], c.rng.bool());
        back(c, "CfgItfmConfig2", &b, |v| format!("{:?} {}", v, itfm(None, Some(*v))))?;
        back(c, "CfgItfmBbThreshold", &CfgItfmBbThreshold::from(w), dbg)?;
        back(c, "CfgItfmCwThreshold", &CfgItfmCwThreshold::from(w), dbg)?;
        back(c, "CfgItfmAlgoBits", &CfgItfmAlgoBits::from(w), dbg)?;
        back(c, "CfgItfmGeneralBits", &CfgItfmGeneralBits::from(w), dbg)
    });
    x.section("satellite status", "every quality, health and orbit source a status word can hold", 4096, |c| {
        let f = NavSatSvFlags::from(c.idx as u32);
        back(c, "NavSatQualityIndicator", &f.quality_ind(), dbg)?;
        back(c, "NavSatSvHealth", &f.health(), dbg)?;
        back(c, "NavSatOrbitSource", &f.orbit_source(), dbg)?;
        let k = c.idx as u8;
        back(c, "NavSatSvHealth", &NavSatSvHealth::Unknown(k), dbg)?;
        back(c, "NavSatOrbitSource", &NavSatOrbitSource::Other(k), dbg)
    });
    x.section("reset modes", "every reset mode", 6, |c| {
        use ResetMode::*;
        let r = [HardwareResetImmediately, ControlledSoftwareReset, ControlledSoftwareResetGpsOnly, HardwareResetAfterShutdown, ControlledGpsStop, ControlledGpsStart][c.idx as usize];
        back(c, "ResetMode", &r, dbg)
    });
    let n = x.n(120_000, 5_000_000);
    x.section("altered texts", "the text of a value with its entries in another order (reads the same) or with parts replaced by hostile ones (no panic; what is accepted reads back as itself)", n, |c| {
        let mut r = c.rng.clone();
        let w = r.u32();
        let f = NavSatSvFlags::from(w);
        use ResetMode::*;
        match c.idx % 13 {
            0 => altered(c, "UartMode", UartMode::new([D::Seven, D::Eight][r.below(2)], [P::Even, P::Odd, P::None][r.below(3)], [S::One, S::OneHalf, S::Two, S::Half][r.below(4)])),
            1 => altered(c, "CfgItfmAntennaSettings", [CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][r.below(3)]),
            2 => altered(c, "CfgItfmConfig", CfgItfmConfig::from(w)),
            3 => altered(c, "CfgItfmConfig2", CfgItfmConfig2::from(w)),
            4 => altered(c, "CfgItfmAlgoBits", CfgItfmAlgoBits::from(w)),
            5 => altered(c, "CfgItfmGeneralBits", CfgItfmGeneralBits::from(w)),
            6 => altered(c, "NavSatQualityIndicator", f.quality_ind()),
            7 => altered(c, "NavSatSvHealth", f.health()),
            8 => altered(c, "NavSatOrbitSource", f.orbit_source()),
            9 => altered(c, "ResetMode", [HardwareResetImmediately, ControlledSoftwareReset, ControlledSoftwareResetGpsOnly, HardwareResetAfterShutdown, ControlledGpsStop, ControlledGpsStart][r.below(6)]),
            10 => altered(c, "Position", Position { lon: w as i32 as f64, lat: r.u8() as f64, alt: -0.5 }),
            11 => altered(c, "PositionECEF", PositionECEF { x: w as i32 as f64, y: r.u8() as f64, z: -0.5 }),
            _ => altered(c, "Velocity", Velocity { speed: w as f64, heading: r.u8() as f64 }),
        }
    });
    let n = x.n(60_000, 3_000_000);
    x.section("positions and velocities", "finite coordinates: of the receiver's resolutions, uniform and bit patterns of any magnitude between 1e-290 and 1e290", n, |c| {
        let v = [num(&mut c.rng, 180.0), num(&mut c.rng, 90.0), num(&mut c.rng, 1e7)];
        let same = |what: &str, g: Result<[f64; 3], serde_json::Error>, t: &str| match g {
            Ok(g) if g.iter().zip(&v).all(|(a, b)| close(*a, *b)) => Ok(()),
            Ok(g) => viol(format!("{} does not read back from its own serialization", what), format!("{:?} -> {} -> {:?}", v, t, g)),
            Err(e) => viol(format!("{} does not read back from its own serialization", what), format!("{:?} -> {}: {}", v, t, e)),
        };
        let t = serde_json::to_string(&Position { lon: v[0], lat: v[1], alt: v[2] }).unwrap_or_default();
        same("Position", serde_json::from_str::<Position>(&t).map(|p| [p.lon, p.lat, p.alt]), &t)?;
        let t = serde_json::to_string(&PositionECEF { x: v[0], y: v[1], z: v[2] }).unwrap_or_default();
        same("PositionECEF", serde_json::from_str::<PositionECEF>(&t).map(|p| [p.x, p.y, p.z]), &t)?;
        let t = serde_json::to_string(&Velocity { speed: v[0], heading: v[1] }).unwrap_or_default();
        same("Velocity", serde_json::from_str::<Velocity>(&t).map(|p| [p.speed, p.heading, v[2]]), &t)?;
        c.count("values read back", 3);
        // binary formats keep every bit
        let exact = |p: &[f64], q: &[f64]| p.iter().zip(q).all(|(a, b)| a.to_bits() == b.to_bits());
        let p = Position { lon: v[0], lat: v[1], alt: v[2] };
        back_bits(c, "Position", &p, |q| exact(&v, &[q.lon, q.lat, q.alt]))?;
        back_bits(c, "PositionECEF", &PositionECEF { x: v[0], y: v[1], z: v[2] }, |q| exact(&v, &[q.x, q.y, q.z]))?;
        back_bits(c, "Velocity", &Velocity { speed: v[0], heading: v[1] }, |q| exact(&v, &[q.speed, q.heading]))?;
        c.distinct_bytes(t.as_bytes());
        Ok(())
    });
    x.require("values read back", 500_000);
    x.require("altered texts understood", 1_000);
    x.require("altered texts refused", 10_000);
    x.finish()
}
