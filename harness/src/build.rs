//! Builder inputs, and the payload bytes the protocol demands for them.
use crate::gen_spec::*;
use crate::rng::Rng;
use crate::spec::*;
use ublox::*;

#[derive(Debug, Clone)]
pub enum Inp { I(i128), F(f64), B(Vec<u8>) }
impl Inp {
    pub fn int(&self) -> i128 { match self { Inp::I(v) => *v, x => panic!("harness: {:?} is no integer", x) } }
    pub fn flt(&self) -> f64 { match self { Inp::F(v) => *v, x => panic!("harness: {:?} is no float", x) } }
    pub fn arr<const N: usize>(&self) -> [u8; N] { match self { Inp::B(v) => v.as_slice().try_into().expect("harness: array size"), x => panic!("harness: {:?} is no array", x) } }
}

pub fn mk_uart_mode(i: &Inp) -> UartMode {
    let w = i.int() as u64;
    let (d, p, s) = uart_mode(w).expect("harness: reserved uart mode");
    UartMode::new(
        match d { "Seven" => DataBits::Seven, _ => DataBits::Eight },
        match p { "Even" => Parity::Even, "Odd" => Parity::Odd, _ => Parity::None },
        match s { "One" => StopBits::One, "OneHalf" => StopBits::OneHalf, "Two" => StopBits::Two, _ => StopBits::Half },
    )
}
pub fn mk_cfg_itfm_config(i: &Inp) -> CfgItfmConfig {
    let w = i.int() as u32;
    CfgItfmConfig::new(w >> 31 == 1, w & 0xf, w >> 4 & 0x1f)
}
pub fn mk_cfg_itfm_config2(i: &Inp) -> CfgItfmConfig2 {
    let w = i.int();
    CfgItfmConfig2::new(crate::gen_build::mk_cfg_itfm_antenna_settings(w >> 12 & 3), w >> 14 & 1 == 1)
}
pub const RESET_MODES: &[u64] = &[0, 1, 2, 4, 8, 9];
pub fn mk_reset_mode(i: &Inp) -> ResetMode {
    match i.int() {
        0 => ResetMode::HardwareResetImmediately,
        1 => ResetMode::ControlledSoftwareReset,
        2 => ResetMode::ControlledSoftwareResetGpsOnly,
        4 => ResetMode::HardwareResetAfterShutdown,
        8 => ResetMode::ControlledGpsStop,
        9 => ResetMode::ControlledGpsStart,
        x => panic!("harness: reset mode {}", x),
    }
}
pub fn mk_alignment_to_reference_time(i: &Inp) -> AlignmentToReferenceTime {
    use AlignmentToReferenceTime::*;
    match i.int() { 0 => Utc, 1 => Gps, 2 => Glo, 3 => Bds, 4 => Gal, x => panic!("harness: alignment {}", x) }
}

/// What the field must look like on the wire.
#[derive(Debug, Clone)]
pub enum Wire { Exact(Vec<u8>), Scaled { x: f64, scale: f64, f32: bool } }

pub fn limits(ty: Ty) -> (i128, i128) {
    match ty {
        Ty::U8 => (0, 0xff), Ty::I8 => (-128, 127), Ty::U16 => (0, 0xffff), Ty::I16 => (-32768, 32767),
        Ty::U32 => (0, u32::MAX as i128), Ty::I32 => (i32::MIN as i128, i32::MAX as i128), Ty::U64 => (0, u64::MAX as i128),
        t => panic!("harness: limits of {:?}", t),
    }
}
/// How adventurous scaled inputs are.
#[derive(Clone, Copy, PartialEq)]
pub enum Scl { Representable, Wild }

pub fn all_flags(fi: usize) -> u64 { FLAGS[fi].consts.iter().fold(0, |a, c| a | c.1) }

pub fn gen_scaled(r: &mut Rng, ty: Ty, scale: f64, f32_: bool, how: Scl) -> f64 {
    let (lo, hi) = limits(ty);
    let pickraw = |r: &mut Rng| -> i128 {
        match r.below(6) {
            0 => lo, 1 => hi, 2 => 0,
            3 => lo + ((hi - lo) * r.below(1 << 20) as i128 >> 20),
            4 => (r.below(200) as i128 - 100).clamp(lo, hi),
            _ => lo + (r.u64() as i128 % (hi - lo + 1)),
        }
    };
    let x = match if how == Scl::Representable { 0 } else { r.below(12) } {
        0 | 1 => pickraw(r) as f64 * scale,
        2 => (pickraw(r) as f64 + 0.5) * scale,
        3 => (pickraw(r) as f64 - 0.5) * scale,
        4 => (pickraw(r) as f64 + r.below(1000) as f64 / 1000.0) * scale,
        5 => (hi as f64 + r.below(1000) as f64 / 100.0) * scale,
        6 => (lo as f64 - r.below(1000) as f64 / 100.0) * scale,
        7 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 0.0, -0.0, 5e-324, -5e-324, 1e300, -1e300, f32::MAX as f64, f32::MIN as f64, 3.5e38, 4294967295.0, 4294967296.0, 2147483648.0, -2147483649.0, 0.49999999999999994, -0.5, 0.5]),
        8 => { let m = 10f64.powi(r.range(0, 24) as i32 - 12); if r.bool() { m } else { -m } },
        9 => f64::from_bits(r.u64()),
        10 => f32::from_bits(r.u32()) as f64,
        _ => pickraw(r) as f64 * scale * 1.0000001,
    };
    let x = if x.is_nan() { 1.0 } else { x };
    if f32_ { let y = x as f32; y as f64 } else { x }
}

/// Is the encoded integer the nearest representable step (within floating-point rounding of the division)?
pub fn check_scaled(x: f64, scale: f64, f32_: bool, ty: Ty, raw: i128) -> Result<(), String> {
    let (lo, hi) = limits(ty);
    let q = x / scale;
    let eps = if f32_ { 4.0 / (1u64 << 24) as f64 } else { 4.0 / (1u64 << 53) as f64 };
    let tol = 0.5 + q.abs() * eps + 1e-12;
    let ok = if q == f64::INFINITY { raw == hi } else if q == f64::NEG_INFINITY { raw == lo }
        else if q - tol > hi as f64 { raw == hi }
        else if q + tol < lo as f64 { raw == lo }
        else {
            (raw as f64 - q).abs() <= tol || (raw == hi && q > hi as f64 - tol) || (raw == lo && q < lo as f64 + tol)
        };
    if ok { Ok(()) } else { Err(format!("{} / {} = {} encoded as {} (range {}..={})", x, scale, q, raw, lo, hi)) }
}

/// Random builder inputs for a packet, with the demanded wire form of each field.
pub fn gen_inputs(r: &mut Rng, p: &PacketSpec, how: Scl) -> (Vec<Inp>, Vec<Wire>) {
    let mut inp = vec![];
    let mut wire = vec![];
    for f in p.fields {
        let (i, w) = gen_field(r, f, how);
        inp.push(i);
        wire.push(w);
    }
    (inp, wire)
}
fn exact(f: &Field, v: u64) -> Wire { Wire::Exact(v.to_le_bytes()[..f.size].to_vec()) }
pub fn gen_field(r: &mut Rng, f: &Field, how: Scl) -> (Inp, Wire) {
    let bits = (f.size * 8) as u32;
    match f.conv {
        Conv::Plain => match f.ty {
            Ty::Arr(n) => { let b = if r.chance(1, 4) { vec![*r.pick(&[0u8, 0xff, 0xb5, 0x62]); n] } else { r.bytes(n) }; (Inp::B(b.clone()), Wire::Exact(b)) },
            Ty::F32 => { let x = f32::from_bits(r.corner(32) as u32); let x = if x.is_nan() { 0.5 } else { x }; (Inp::F(x as f64), Wire::Exact(x.to_le_bytes().to_vec())) },
            Ty::F64 => { let x = f64::from_bits(r.corner(64)); let x = if x.is_nan() { 0.5 } else { x }; (Inp::F(x), Wire::Exact(x.to_le_bytes().to_vec())) },
            _ => {
                let v = r.corner(bits);
                let b = v.to_le_bytes();
                let i = match f.ty { Ty::I8 => v as u8 as i8 as i128, Ty::I16 => v as u16 as i16 as i128, Ty::I32 => v as u32 as i32 as i128, _ => v as i128 };
                (Inp::I(i), Wire::Exact(b[..f.size].to_vec()))
            },
        },
        Conv::Scaled { f32: s, scale } => { let x = gen_scaled(r, f.ty, scale, s, how); (Inp::F(x), Wire::Scaled { x, scale, f32: s }) },
        Conv::Enum(e) => { let v = r.pick(ENUMS[e].variants).1; (Inp::I(v as i128), exact(f, v)) },
        Conv::Flags(fi) => {
            let all = all_flags(fi);
            let v = match r.below(4) { 0 => all, 1 => 0, 2 => r.pick(FLAGS[fi].consts).1, _ => r.u64() & all };
            (Inp::I(v as i128), exact(f, v))
        },
        Conv::Custom(c) => match c {
            "UartMode" => { let w = uart_word(r); (Inp::I(w as i128), exact(f, uart_canon(w))) },
            "CfgItfmConfig" => { let w = r.corner(32) & 0x8000_01ff | 0x16B156 << 9; (Inp::I(w as i128), exact(f, w)) },
            "CfgItfmConfig2" => { let w = (r.below(3) as u64) << 12 | (r.below(2) as u64) << 14 | 0x31e; (Inp::I(w as i128), exact(f, w)) },
            "ResetMode" => { let v = *r.pick(RESET_MODES); (Inp::I(v as i128), exact(f, v)) },
            "AlignmentToReferenceTime" => { let v = r.below(5) as u64; (Inp::I(v as i128), exact(f, v)) },
            x => panic!("harness: no generator for {}", x),
        },
    }
}
/// A UART mode word without reserved encodings (other bits zero); "no parity" has two encodings.
pub fn uart_word(r: &mut Rng) -> u64 {
    (*r.pick(&[2u64, 3])) << 6 | (*r.pick(&[0u64, 1, 4, 5])) << 9 | (r.below(4) as u64) << 12
}
/// The encoding the protocol's builder form uses: "no parity" may be 4 or 5 (bit 9 is "don't care"); normalized to 4.
pub fn uart_canon(w: u64) -> u64 { if w >> 9 & 7 == 5 { w & !(7 << 9) | 4 << 9 } else { w } }

/// Compares a payload with the demanded wire form. `None` or (field, difference).
pub fn check_wire(p: &PacketSpec, wire: &[Wire], pl: &[u8]) -> Result<(), (String, String)> {
    if Some(pl.len()) != p.fixed { return Err(("payload length".into(), format!("payload of {} bytes, expected {:?}", pl.len(), p.fixed))); }
    for (f, w) in p.fields.iter().zip(wire) {
        let b = &pl[f.off..f.off + f.size];
        match w {
            Wire::Exact(e) => {
                let mut b = b.to_vec();
                if let Conv::Custom("UartMode") = f.conv { let c = uart_canon(le(&b)); b = c.to_le_bytes()[..4].to_vec(); }
                if b != *e { return Err((f.name.into(), format!("{}: on the wire {:02x?}, expected {:02x?}", f.name, b, e))); }
            },
            Wire::Scaled { x, scale, f32 } => {
                let raw = match crate::spec::raw(f, pl) { crate::obs::Val::Int(i) => i, v => panic!("harness: {:?}", v) };
                check_scaled(*x, *scale, *f32, f.ty, raw).map_err(|e| (f.name.to_string(), format!("{}: {}", f.name, e)))?;
            },
        }
    }
    Ok(())
}
pub fn sendable() -> Vec<&'static PacketSpec> { PACKETS.iter().filter(|p| p.send && p.name != "CfgValSet").collect() }
