//! Configuration key/values: reference encoding.
use crate::rng::Rng;
use ublox::cfg_val::{TpPulse, TpPulseLength};
use ublox::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum VTy { Bool, U8, U16, I16, U32, U64, CfgInfMask, DataBits, Parity, StopBits, AlignmentToReferenceTime, TpPulse, TpPulseLength }
#[derive(Debug)]
pub struct Key { pub name: &'static str, pub key: u32, pub ty: VTy }

fn bad(v: u64) -> ! { panic!("harness: configuration value {}", v) }
pub fn mk_bool(v: u64) -> bool { v == 1 }
pub fn mk_u8(v: u64) -> u8 { v as u8 }
pub fn mk_u16(v: u64) -> u16 { v as u16 }
pub fn mk_i16(v: u64) -> i16 { v as u16 as i16 }
pub fn mk_u32(v: u64) -> u32 { v as u32 }
pub fn mk_u64(v: u64) -> u64 { v }
pub fn mk_cfginfmask(v: u64) -> CfgInfMask { CfgInfMask::from_bits_truncate(v as u8) }
pub fn mk_databits(v: u64) -> DataBits { match v { 0 => DataBits::Eight, 1 => DataBits::Seven, _ => bad(v) } }
pub fn mk_parity(v: u64) -> Parity { match v { 0 => Parity::None, 1 => Parity::Odd, 2 => Parity::Even, _ => bad(v) } }
pub fn mk_stopbits(v: u64) -> StopBits { match v { 0 => StopBits::Half, 1 => StopBits::One, 2 => StopBits::OneHalf, 3 => StopBits::Two, _ => bad(v) } }
pub fn mk_alignmenttoreferencetime(v: u64) -> AlignmentToReferenceTime { crate::build::mk_alignment_to_reference_time(&crate::build::Inp::I(v as i128)) }
pub fn mk_tppulse(v: u64) -> TpPulse { match v { 0 => TpPulse::Period, 1 => TpPulse::Freq, _ => bad(v) } }
pub fn mk_tppulselength(v: u64) -> TpPulseLength { match v { 0 => TpPulseLength::Ratio, 1 => TpPulseLength::Length, _ => bad(v) } }

pub fn un_bool(v: bool) -> u64 { v as u64 }
pub fn un_u8(v: u8) -> u64 { v as u64 }
pub fn un_u16(v: u16) -> u64 { v as u64 }
pub fn un_i16(v: i16) -> u64 { v as u16 as u64 }
pub fn un_u32(v: u32) -> u64 { v as u64 }
pub fn un_u64(v: u64) -> u64 { v }
pub fn un_cfginfmask(v: CfgInfMask) -> u64 { v.bits() as u64 }
pub fn un_databits(v: DataBits) -> u64 { match v { DataBits::Eight => 0, DataBits::Seven => 1 } }
pub fn un_parity(v: Parity) -> u64 { match v { Parity::None => 0, Parity::Odd => 1, Parity::Even => 2 } }
pub fn un_stopbits(v: StopBits) -> u64 { match v { StopBits::Half => 0, StopBits::One => 1, StopBits::OneHalf => 2, StopBits::Two => 3 } }
pub fn un_alignmenttoreferencetime(v: AlignmentToReferenceTime) -> u64 { use AlignmentToReferenceTime::*; match v { Utc => 0, Gps => 1, Glo => 2, Bds => 3, Gal => 4 } }
pub fn un_tppulse(v: TpPulse) -> u64 { match v { TpPulse::Period => 0, TpPulse::Freq => 1 } }
pub fn un_tppulselength(v: TpPulseLength) -> u64 { match v { TpPulseLength::Ratio => 0, TpPulseLength::Length => 1 } }

/// Bytes of the value on the wire, announced by the key.
pub fn storage(key: u32) -> usize { match key >> 28 & 7 { 1 | 2 => 1, 3 => 2, 4 => 4, 5 => 8, _ => panic!("harness: key {:x}", key) } }
/// Number of legal values (0: the whole storage range).
pub fn cardinality(ty: VTy) -> u64 {
    match ty { VTy::Bool | VTy::DataBits | VTy::TpPulse | VTy::TpPulseLength => 2, VTy::Parity => 3, VTy::StopBits => 4, VTy::AlignmentToReferenceTime => 5, VTy::CfgInfMask => 0, _ => 0 }
}
pub const INF_MASK: u64 = 0x1f;
pub fn gen_val(r: &mut Rng, k: &Key) -> u64 {
    match cardinality(k.ty) {
        0 if k.ty == VTy::CfgInfMask => r.u64() & INF_MASK,
        0 => r.corner(storage(k.key) as u32 * 8),
        n => r.below(n as usize) as u64,
    }
}
pub fn encode(k: &Key, v: u64) -> Vec<u8> {
    let mut o = k.key.to_le_bytes().to_vec();
    o.extend_from_slice(&v.to_le_bytes()[..storage(k.key)]);
    o
}
