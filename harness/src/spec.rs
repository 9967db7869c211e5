//! Independent specification of the packets: table types and the reference decoder.
use crate::gen_spec::*;
use crate::obs::Val;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ty { U8, I8, U16, I16, U32, I32, U64, F32, F64, Arr(usize), Var }
#[derive(Debug, Clone, Copy)]
pub enum Conv { Plain, Scaled { f32: bool, scale: f64 }, Enum(usize), Flags(usize), Custom(&'static str) }
#[derive(Debug)]
pub struct EnumSpec { pub name: &'static str, pub open: bool, pub default: &'static str, pub variants: &'static [(&'static str, u64)] }
#[derive(Debug)]
pub struct FlagsSpec { pub name: &'static str, pub bits: u32, pub consts: &'static [(&'static str, u64)] }
#[derive(Debug)]
pub struct Field { pub name: &'static str, pub getter: &'static str, pub raw_getter: &'static str, pub ty: Ty, pub off: usize, pub size: usize, pub conv: Conv, pub checked: bool }
#[derive(Debug)]
pub struct PacketSpec { pub name: &'static str, pub class: u8, pub id: u8, pub fixed: Option<usize>, pub max: usize, pub min: usize, pub recv: bool, pub send: bool, pub default_builder: bool, pub fields: &'static [Field] }

pub fn packet(name: &str) -> &'static PacketSpec {
    PACKETS.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("harness: no spec {}", name))
}
/// Received packets in dispatch order.
pub fn order() -> Vec<&'static PacketSpec> { ORDER.iter().map(|n| packet(n)).collect() }

pub fn enum_name(e: &EnumSpec, v: u64) -> Option<String> {
    match e.variants.iter().find(|x| x.1 == v) {
        Some(x) => Some(x.0.to_string()),
        None if e.open => Some(format!("Reserved{}", v)),
        None => None,
    }
}
pub fn le(b: &[u8]) -> u64 { b.iter().rev().fold(0, |a, x| (a << 8) | *x as u64) }
fn raw_int(ty: Ty, b: &[u8]) -> i128 {
    let u = le(b);
    match ty { Ty::I8 => u as u8 as i8 as i128, Ty::I16 => u as u16 as i16 as i128, Ty::I32 => u as u32 as i32 as i128, _ => u as i128 }
}
pub fn raw(f: &Field, p: &[u8]) -> Val {
    let b = &p[f.off..f.off + f.size];
    match f.ty {
        Ty::Arr(_) => Val::Bytes(b.to_vec()),
        Ty::F32 => Val::F32(f32::from_bits(le(b) as u32)),
        Ty::F64 => Val::F64(f64::from_bits(le(b))),
        t => Val::Int(raw_int(t, b)),
    }
}
fn cstr(b: &[u8]) -> Option<&str> { let n = b.iter().position(|x| *x == 0)?; std::str::from_utf8(&b[..n]).ok() }

fn bit(v: u64, n: u32) -> Val { Val::Bool(v >> n & 1 == 1) }
fn s(x: &str) -> Val { Val::Str(x.to_string()) }

/// Does the payload form a valid packet of this kind?
pub fn valid(p: &PacketSpec, pl: &[u8]) -> bool {
    let n = pl.len();
    match p.fixed { Some(k) => if n != k { return false }, None => if n < p.min { return false } }
    for f in p.fields {
        if !f.checked { continue; }
        match f.conv {
            Conv::Enum(e) => if enum_name(&ENUMS[e], pl[f.off] as u64).is_none() { return false },
            Conv::Custom("&str") => if cstr(&pl[f.off..f.off + f.size]).is_none() { return false },
            Conv::Custom("NavSatIter") => if (n - f.off) % 12 != 0 { return false },
            Conv::Custom("MonVerExtensionIter") => if (n - f.off) % 30 != 0 || !pl[f.off..].chunks(30).all(|c| cstr(c).is_some()) { return false },
            Conv::Custom("RxmRawxInfoIter") => if (n - f.off) % 32 != 0 { return false },
            Conv::Custom("EsfRawDataIter") => if (n - f.off) % 8 != 0 { return false },
            Conv::Custom("DwrdIter") => if (n - f.off) % 4 != 0 { return false },
            Conv::Custom("EsfMeasDataIter") => if (n - f.off) % 4 != 0 { return false },
            Conv::Custom("Option<&str>") => {},
            c => panic!("harness: checked field {:?}", c),
        }
    }
    if p.name == "EsfMeas" {
        let (d, t) = esf_meas_lens(pl);
        if n < 8 + d + t { return false; }
    }
    true
}
fn esf_meas_lens(pl: &[u8]) -> (usize, usize) {
    let fl = le(&pl[4..6]);
    (((fl >> 11) & 0x1f) as usize * 4, if fl & 8 != 0 { 4 } else { 0 })
}

/// First packet of the dispatch order accepting the frame, or None (unknown).
pub fn dispatch(class: u8, id: u8, pl: &[u8]) -> Option<&'static PacketSpec> {
    PACKETS_BY_ORDER.with(|o| o.iter().copied().find(|p| p.class == class && p.id == id && valid(p, pl)))
}
thread_local! { static PACKETS_BY_ORDER: Vec<&'static PacketSpec> = order(); }

fn rec(name: &str, b: &[u8]) -> Val {
    let mut v = vec![("as_bytes", Val::Bytes(b.to_vec()))];
    v.extend(decode(packet(name), b));
    Val::Rec(v)
}

/// Expected accessor values (undefined ones are omitted).
pub fn decode(p: &'static PacketSpec, pl: &[u8]) -> Vec<(&'static str, Val)> {
    let mut o = vec![];
    for f in p.fields {
        if !f.raw_getter.is_empty() { o.push((f.raw_getter, raw(f, pl))); }
        if let Some(v) = decode_field(p, f, pl) { o.push((f.getter, v)); }
    }
    o
}
pub fn is_var(f: &Field) -> bool { f.size == 0 }
pub fn decode_field(_p: &PacketSpec, f: &Field, pl: &[u8]) -> Option<Val> {
    let int = || match raw(f, pl) { Val::Int(i) => i, x => panic!("harness: {:?}", x) };
    let u = || le(&pl[f.off..f.off + f.size]);
    Some(match f.conv {
        Conv::Plain => raw(f, pl),
        Conv::Scaled { f32: true, scale } => Val::F32(int() as f32 * scale as f32),
        Conv::Scaled { f32: false, scale } => Val::F64(int() as f64 * scale),
        Conv::Enum(e) => Val::Enum(enum_name(&ENUMS[e], u())?, u() as i128),
        Conv::Flags(_) => Val::Flags(u()),
        Conv::Custom(c) => match c {
            "&str" => s(cstr(&pl[f.off..f.off + f.size])?),
            "Option<&str>" => std::str::from_utf8(&pl[f.off..]).map(s).unwrap_or(Val::None),
            "NavSatIter" => Val::Seq(pl[f.off..].chunks(12).map(|c| rec("NavSatSvInfo", c)).collect()),
            "RxmRawxInfoIter" => Val::Seq(pl[f.off..].chunks(32).map(|c| rec("RxmRawxInfo", c)).collect()),
            "MonVerExtensionIter" => Val::Seq(pl[f.off..].chunks(30).map(|c| s(cstr(c).unwrap())).collect()),
            "DwrdIter" => Val::Seq(pl[f.off..].chunks(4).map(|c| Val::Int(le(c) as i128)).collect()),
            "EsfMeasDataIter" => Val::Seq(pl[8..8 + esf_meas_lens(pl).0].chunks(4).map(|c| {
                let w = le(c);
                Val::Rec(vec![("data_type", Val::Int((w >> 24 & 0x3f) as i128)), ("data_field", Val::Int((w & 0xffffff) as i128))])
            }).collect()),
            "Option<u32>" => { let (d, t) = esf_meas_lens(pl); if t == 0 { Val::None } else { Val::Int(le(&pl[8 + d..12 + d]) as i128) } },
            "EsfRawDataIter" => Val::Seq(pl[f.off..].chunks(8).map(|c| {
                let w = le(&c[..4]);
                Val::Rec(vec![("data_type", Val::Int((w >> 24) as i128)), ("data_field", Val::Int((w & 0xffffff) as i128)), ("sensor_time_tag", Val::Int(le(&c[4..]) as i128))])
            }).collect()),
            _ => return decode_word(c, u()),
        },
    })
}

/// Bit fields packed in one word. None where the protocol leaves the value undefined (reserved patterns).
pub fn decode_word(c: &str, w: u64) -> Option<Val> {
    let b = |hi: u32, lo: u32| (w >> lo) & ((1 << (hi - lo + 1)) - 1);
    Some(Val::Rec(match c {
        "FixStatusInfo" => { let i = b(7, 6); vec![("has_pr_prr_correction", bit(w, 0)), ("map_matching", Val::Enum(["None", "Valid", "Used", "Dr"][i as usize].into(), i as i128))] },
        "NavSatSvFlags" => vec![
            ("quality_ind", s(["NoSignal", "Searching", "SignalAcquired", "SignalDetected", "CodeLock", "CarrierLock", "CarrierLock", "CarrierLock"][b(2, 0) as usize])),
            ("sv_used", bit(w, 3)),
            ("health", s(["Unknown(0)", "Healthy", "Unhealthy", "Unknown(3)"][b(5, 4) as usize])),
            ("differential_correction_available", bit(w, 6)),
            ("smoothed", bit(w, 7)),
            ("orbit_source", s(["NoInfoAvailable", "Ephemeris", "Almanac", "AssistNowOffline", "AssistNowAutonomous", "Other(5)", "Other(6)", "Other(7)"][b(10, 8) as usize])),
            ("ephemeris_available", bit(w, 11)), ("almanac_available", bit(w, 12)), ("an_offline_available", bit(w, 13)), ("an_auto_available", bit(w, 14)),
            ("sbas_corr", bit(w, 16)), ("rtcm_corr", bit(w, 17)), ("slas_corr", bit(w, 18)), ("spartn_corr", bit(w, 19)),
            ("pr_corr", bit(w, 20)), ("cr_corr", bit(w, 21)), ("do_corr", bit(w, 22)),
        ],
        "TimTpFlags" => vec![
            ("time_base", s(["Gnss", "Utc"][b(0, 0) as usize])), ("utc_available", bit(w, 1)),
            ("raim_active", match b(3, 2) { 1 => Val::Bool(false), 2 => Val::Bool(true), _ => Val::None }),
            ("q_err_valid", Val::Bool(b(4, 4) == 0)),
        ],
        "TimTpRefInfo" => vec![
            ("time_ref_gnss", s(["Some(Gps)", "Some(Glo)", "Some(Bds)", "Some(Gal)", "Some(NavIc)"].get(b(3, 0) as usize).unwrap_or(&"None"))),
            ("utc_standard", s(["None", "Some(Crl)", "Some(Nist)", "Some(Usno)", "Some(Bipm)", "Some(Eu)", "Some(Su)", "Some(Ntsc)", "Some(Npli)"].get(b(7, 4) as usize).unwrap_or(&"None"))),
        ],
        "TimTm2Flags" => {
            let mut v = vec![("mode", s(["Single", "Running"][b(0, 0) as usize])), ("run", s(["Armed", "Stopped"][b(1, 1) as usize])),
                ("new_falling_edge", bit(w, 2)), ("new_rising_edge", bit(w, 7))];
            // 3 is not defined by the protocol: any answer will do (but not a panic, see the panic property)
            v.push(("time_base", match b(4, 3) { 3 => Val::Any, i => s(["Receiver", "Gnss", "Utc"][i as usize]) }));
            v.extend([("utc_available", bit(w, 5)), ("time_valid", bit(w, 6))]);
            v
        },
        "UartMode" => return uart_mode(w).map(|(d, p, st)| s(&format!("UartMode {{ data_bits: {}, parity: {}, stop_bits: {} }}", d, p, st))),
        "CfgItfmConfig" => return Some(s(&format!("CfgItfmConfig {{ enable: {}, bb_threshold: CfgItfmBbThreshold({}), cw_threshold: CfgItfmCwThreshold({}), algorithm_bits: CfgItfmAlgoBits({}) }}", b(31, 31) == 1, b(3, 0), b(8, 4), b(30, 9)))),
        "CfgItfmConfig2" => {
            return Some(s(&format!("CfgItfmConfig2 {{ general: CfgItfmGeneralBits({}), antenna: {}, scan_aux_bands: {} }}", b(11, 0), ["Unknown", "Active", "Passive", "Unknown"][b(13, 12) as usize], b(14, 14) == 1)));
        },
        x => panic!("harness: word {}", x),
    }))
}
/// data bits, parity, stop bits; None for reserved encodings
pub fn uart_mode(w: u64) -> Option<(&'static str, &'static str, &'static str)> {
    let d = match w >> 6 & 3 { 2 => "Seven", 3 => "Eight", _ => return None };
    let p = match w >> 9 & 7 { 0 => "Even", 1 => "Odd", 4 | 5 => "None", _ => return None };
    Some((d, p, ["One", "OneHalf", "Two", "Half"][(w >> 12 & 3) as usize]))
}
impl Field { pub fn conv_is(&self, c: &str) -> bool { matches!(self.conv, Conv::Custom(x) if x == c) } }
