//! What the public read API shows of a packet, as plain values.
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Int(i128),
    F64(f64),
    F32(f32),
    Bool(bool),
    Bytes(Vec<u8>),
    Str(String),
    None,
    Enum(String, i128),
    Flags(u64),
    Seq(Vec<Val>),
    Rec(Vec<(&'static str, Val)>),
    /// In expectations: not defined, anything will do.
    Any,
    /// The accessor panicked at this place.
    Panic(String),
}

#[derive(Debug, Clone)]
pub struct Observed {
    pub kind: &'static str,
    pub bytes: Vec<u8>,
    pub vals: Vec<(&'static str, Val)>,
}

pub trait ToVal { fn tv(&self) -> Val; }
macro_rules! ints { ($($t:ty)*) => { $(impl ToVal for $t { fn tv(&self) -> Val { Val::Int(*self as i128) } })* } }
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
impl ToVal for f64 { fn tv(&self) -> Val { Val::F64(*self) } }
impl ToVal for f32 { fn tv(&self) -> Val { Val::F32(*self) } }
impl ToVal for bool { fn tv(&self) -> Val { Val::Bool(*self) } }
impl<const N: usize> ToVal for [u8; N] { fn tv(&self) -> Val { Val::Bytes(self.to_vec()) } }
impl ToVal for &[u8] { fn tv(&self) -> Val { Val::Bytes(self.to_vec()) } }
impl ToVal for Vec<u8> { fn tv(&self) -> Val { Val::Bytes(self.clone()) } }
impl ToVal for &str { fn tv(&self) -> Val { Val::Str(self.to_string()) } }
impl ToVal for String { fn tv(&self) -> Val { Val::Str(self.clone()) } }
impl<T: ToVal> ToVal for Option<T> { fn tv(&self) -> Val { match self { Some(x) => x.tv(), None => Val::None } } }

/// Runs a read-side operation; a panic becomes a value carrying its location.
pub fn guarded<F: FnOnce() -> Val>(f: F) -> Val {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => Val::Panic(crate::run::take_panic()),
    }
}

#[macro_export]
macro_rules! get { ($o:ident, $n:expr, $e:expr) => { $o.push(($n, $crate::obs::guarded(|| $e))) }; }
#[macro_export]
macro_rules! enumv { ($e:expr) => {{ let v = $e; Val::Enum(format!("{:?}", v), v as i128) }}; }
#[macro_export]
macro_rules! flagv { ($e:expr) => {{ let v = $e; Val::Flags(v.bits() as u64) }}; }

macro_rules! dbgv { ($e:expr) => { { let v = $e; Val::Str(format!("{:?}", v)) } }; }

use ublox::*;
/// Prints a nested value; only a panic leaves an entry.
fn printed<T: std::fmt::Debug>(o: &mut Vec<(&'static str, Val)>, x: &T) {
    if let p @ Val::Panic(_) = guarded(|| { let _ = format!("{:?}", x); Val::None }) { o.push(("debug text", p)); }
}
pub fn fix_status_info(x: FixStatusInfo) -> Val {
    let mut o = vec![];
    printed(&mut o, &x);
    get!(o, "has_pr_prr_correction", x.has_pr_prr_correction().tv());
    get!(o, "map_matching", enumv!(x.map_matching()));
    Val::Rec(o)
}
pub fn nav_sat_sv_flags(x: NavSatSvFlags) -> Val {
    let mut o = vec![];
    printed(&mut o, &x);
    get!(o, "quality_ind", dbgv!(x.quality_ind()));
    get!(o, "sv_used", x.sv_used().tv());
    get!(o, "health", dbgv!(x.health()));
    get!(o, "differential_correction_available", x.differential_correction_available().tv());
    get!(o, "smoothed", x.smoothed().tv());
    get!(o, "orbit_source", dbgv!(x.orbit_source()));
    get!(o, "ephemeris_available", x.ephemeris_available().tv());
    get!(o, "almanac_available", x.almanac_available().tv());
    get!(o, "an_offline_available", x.an_offline_available().tv());
    get!(o, "an_auto_available", x.an_auto_available().tv());
    get!(o, "sbas_corr", x.sbas_corr().tv());
    get!(o, "rtcm_corr", x.rtcm_corr().tv());
    get!(o, "slas_corr", x.slas_corr().tv());
    get!(o, "spartn_corr", x.spartn_corr().tv());
    get!(o, "pr_corr", x.pr_corr().tv());
    get!(o, "cr_corr", x.cr_corr().tv());
    get!(o, "do_corr", x.do_corr().tv());
    Val::Rec(o)
}
pub fn tim_tp_flags(x: TimTpFlags) -> Val {
    let mut o = vec![];
    printed(&mut o, &x);
    get!(o, "time_base", dbgv!(x.time_base()));
    get!(o, "utc_available", x.utc_available().tv());
    get!(o, "raim_active", x.raim_active().tv());
    get!(o, "q_err_valid", x.q_err_valid().tv());
    Val::Rec(o)
}
pub fn tim_tp_ref_info(x: TimTpRefInfo) -> Val {
    let mut o = vec![];
    printed(&mut o, &x);
    get!(o, "time_ref_gnss", dbgv!(x.time_ref_gnss()));
    get!(o, "utc_standard", dbgv!(x.utc_standard()));
    Val::Rec(o)
}
pub fn tim_tm2_flags(x: TimTm2Flags) -> Val {
    let mut o = vec![];
    printed(&mut o, &x);
    get!(o, "mode", (match x.mode() { TimTm2Mode::Single => "Single", TimTm2Mode::Running => "Running" }).tv());
    get!(o, "run", (match x.run() { TimTm2Run::Armed => "Armed", TimTm2Run::Stopped => "Stopped" }).tv());
    get!(o, "new_falling_edge", x.new_falling_edge().tv());
    get!(o, "new_rising_edge", x.new_rising_edge().tv());
    #[allow(unreachable_patterns)]
    {
        get!(o, "time_base", (match x.time_base() {
            TimTm2TimeBase::Receiver => "Receiver", TimTm2TimeBase::Gnss => "Gnss", TimTm2TimeBase::Utc => "Utc", _ => "?",
        }).tv());
    }
    get!(o, "utc_available", x.utc_available().tv());
    get!(o, "time_valid", x.time_valid().tv());
    Val::Rec(o)
}
pub fn uart_mode(x: UartMode) -> Val { dbgv!(x) }
pub fn cfg_itfm_config(x: CfgItfmConfig) -> Val { dbgv!(x) }
pub fn cfg_itfm_config2(x: CfgItfmConfig2) -> Val { dbgv!(x) }

/// Debug text of flag words as it follows from their sub-fields.
struct Sub<F>(F);
impl<F: Fn(&mut std::fmt::Formatter) -> std::fmt::Result> std::fmt::Debug for Sub<F> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { (self.0)(f) } }
pub fn dbg_fix_status_info(x: FixStatusInfo) -> impl std::fmt::Debug {
    Sub(move |f: &mut std::fmt::Formatter| f.debug_struct("FixStatusInfo").field("has_pr_prr_correction", &x.has_pr_prr_correction()).field("map_matching", &x.map_matching()).finish())
}
pub fn dbg_nav_sat_sv_flags(x: NavSatSvFlags) -> impl std::fmt::Debug {
    Sub(move |f: &mut std::fmt::Formatter| {
        f.debug_struct("NavSatSvFlags").field("quality_ind", &x.quality_ind()).field("sv_used", &x.sv_used()).field("health", &x.health())
            .field("differential_correction_available", &x.differential_correction_available()).field("smoothed", &x.smoothed())
            .field("orbit_source", &x.orbit_source()).field("ephemeris_available", &x.ephemeris_available()).field("almanac_available", &x.almanac_available())
            .field("an_offline_available", &x.an_offline_available()).field("an_auto_available", &x.an_auto_available()).field("sbas_corr", &x.sbas_corr())
            .field("rtcm_corr", &x.rtcm_corr()).field("slas_corr", &x.slas_corr()).field("spartn_corr", &x.spartn_corr()).field("pr_corr", &x.pr_corr())
            .field("cr_corr", &x.cr_corr()).field("do_corr", &x.do_corr()).finish()
    })
}
/// (where, actual, expected) of the debug text of every record and flag word inside a packet.
pub fn record_texts(q: &PacketRef) -> Vec<(String, String, String)> {
    let mut o = vec![];
    match q {
        PacketRef::NavSat(p) => for (i, r) in p.svs().enumerate() {
            let (a, b) = crate::gen_obs::record_debug_nav_sat_sv_info(&r);
            o.push((format!("satellite {}", i), a, b));
            o.push((format!("flags of satellite {}", i), format!("{:?}", r.flags()), format!("{:?}", dbg_nav_sat_sv_flags(r.flags()))));
            o.push((format!("flags of satellite {}, pretty", i), format!("{:#?}", r.flags()), format!("{:#?}", dbg_nav_sat_sv_flags(r.flags()))));
        },
        PacketRef::RxmRawx(p) => for (i, r) in p.measurements().enumerate() {
            let (a, b) = crate::gen_obs::record_debug_rxm_rawx_info(&r);
            o.push((format!("measurement {}", i), a, b));
        },
        PacketRef::EsfMeas(p) => for (i, r) in p.data().enumerate() { o.push((format!("record {}", i), format!("{:?}", r), format!("EsfMeasData {{ data_type: {}, data_field: {} }}", r.data_type, r.data_field))); },
        PacketRef::EsfRaw(p) => for (i, r) in p.data().enumerate() { o.push((format!("record {}", i), format!("{:?}", r), format!("EsfRawData {{ data_type: {}, data_field: {}, sensor_time_tag: {} }}", r.data_type, r.data_field, r.sensor_time_tag))); },
        _ => {},
    }
    o
}

/// Collects an iterator; stops (and marks) when it exceeds `limit` items, then polls a few more times after the end.
fn collect<I: Iterator>(mut it: I, limit: usize, f: impl Fn(I::Item) -> Val) -> Val {
    let mut v = vec![];
    loop {
        match it.next() {
            Some(x) => v.push(f(x)),
            None => break,
        }
        if v.len() > limit {
            v.push(Val::Str("iterator does not end".into()));
            return Val::Seq(v);
        }
    }
    for _ in 0..3 {
        if it.next().is_some() { v.push(Val::Str("item after the end".into())); }
    }
    Val::Seq(v)
}
const LIM: usize = 9000;
fn nav_sat_item(i: NavSatSvInfoRef) -> Val { Val::Rec({ let mut v = vec![("as_bytes", i.as_bytes().tv())]; v.extend(crate::gen_obs::obs_nav_sat_sv_info(&i)); printed(&mut v, &i); v }) }
fn rxm_rawx_item(i: RxmRawxInfoRef) -> Val { Val::Rec({ let mut v = vec![("as_bytes", i.as_bytes().tv())]; v.extend(crate::gen_obs::obs_rxm_rawx_info(&i)); printed(&mut v, &i); v }) }
fn esf_meas_item(i: EsfMeasData) -> Val { Val::Rec(vec![("data_type", i.data_type.tv()), ("data_field", i.data_field.tv())]) }
fn esf_raw_item(i: EsfRawData) -> Val { Val::Rec(vec![("data_type", i.data_type.tv()), ("data_field", i.data_field.tv()), ("sensor_time_tag", i.sensor_time_tag.tv())]) }
pub fn nav_sat_iter(x: NavSatIter) -> Val { collect(x, LIM, nav_sat_item) }
pub fn rxm_rawx_info_iter(x: RxmRawxInfoIter) -> Val { collect(x, LIM, rxm_rawx_item) }
pub fn mon_ver_extension_iter(x: MonVerExtensionIter) -> Val { collect(x, LIM, |i| i.tv()) }
pub fn dwrd_iter(x: DwrdIter) -> Val { collect(x, LIM, |i| i.tv()) }
pub fn esf_meas_data_iter(x: EsfMeasDataIter) -> Val { collect(x, LIM, esf_meas_item) }
pub fn esf_raw_data_iter(x: EsfRawDataIter) -> Val { collect(x, LIM, esf_raw_item) }

/// A random history of iterator operations on iterators obtained from one packet, against the plain walk.
pub fn walk<I: Iterator + Clone, T: std::fmt::Debug>(rng: &mut crate::rng::Rng, start: impl Fn() -> I, f: impl Fn(I::Item) -> T) -> Result<u64, String> {
    let f = |i: I::Item| format!("{:?}", f(i)); // as text: NaN is the same as NaN
    let all: Vec<String> = start().take(LIM).map(&f).collect();
    let n = all.len();
    let mut its: Vec<(I, usize)> = vec![(start(), 0)];
    let mut ops = 0;
    let at = |i: usize| all.get(i);
    for _ in 0..rng.range(4, 24) {
        let k = rng.below(its.len());
        let (it, pos) = &mut its[k];
        let left = n - (*pos).min(n);
        ops += 1;
        match rng.below(11) {
            0 | 1 | 2 => { let g = it.next().map(&f); if g.as_ref() != at(*pos) { return Err(format!("next at record {} of {} gives {:?}, the plain walk {:?}", pos, n, g, at(*pos))); } *pos = (*pos + 1).min(n); },
            3 => { let s = rng.below(left + 2); let g = it.nth(s).map(&f); if g.as_ref() != at(*pos + s) { return Err(format!("nth({}) at record {} of {} gives {:?}, the plain walk {:?}", s, pos, n, g, at(*pos + s))); } *pos = (*pos + s + 1).min(n); },
            4 => { let (lo, hi) = it.size_hint(); if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size_hint at record {} of {} is {:?}, {} are left", pos, n, (lo, hi), left)); } },
            5 => { let c = it.clone().count(); if c != left { return Err(format!("count at record {} of {} is {}", pos, n, c)); } },
            6 => { let g = it.clone().last().map(&f); if g.as_ref() != (if left > 0 { all.last() } else { None }) { return Err(format!("last at record {} of {} gives {:?}", pos, n, g)); } },
            7 => { let s = rng.below(4) + 1; let g: Vec<String> = it.clone().step_by(s).map(&f).collect(); if !all[(*pos).min(n)..].iter().step_by(s).eq(g.iter()) { return Err(format!("step_by({}) at record {} of {} gives something else than the plain walk", s, pos, n)); } },
            8 => { let x = (it.clone(), *pos); its.push(x); },
            9 => {
                let s = rng.below(left + 2);
                let mut g = vec![];
                it.clone().skip(s).for_each(|i| g.push(f(i)));
                let h = it.clone().fold(0, |k, _| k + 1);
                if g[..] != all[(*pos + s).min(n)..] || h != left { return Err(format!("for_each at record {} of {}, {} skipped: {} records; fold sees {}", pos, n, s, g.len(), h)); }
            },
            _ => its.push((start(), 0)),
        }
    }
    for (it, pos) in its {
        let g: Vec<String> = it.map(&f).collect();
        if g[..] != all[pos.min(n)..] { return Err(format!("what is left of an iterator at record {} of {} is not the rest of the plain walk: {} records", pos, n, g.len())); }
    }
    Ok(ops)
}
/// None when the packet has no repeated group.
pub fn histories(q: &PacketRef, rng: &mut crate::rng::Rng) -> Option<Result<u64, String>> {
    Some(match q {
        PacketRef::NavSat(p) => walk(rng, || p.svs(), nav_sat_item),
        PacketRef::RxmRawx(p) => walk(rng, || p.measurements(), rxm_rawx_item),
        PacketRef::MonVer(p) => walk(rng, || p.extension(), |i| i.tv()),
        PacketRef::RxmSfrbx(p) => walk(rng, || p.dwrd(), |i| i.tv()),
        PacketRef::EsfMeas(p) => walk(rng, || p.data(), esf_meas_item),
        PacketRef::EsfRaw(p) => walk(rng, || p.data(), esf_raw_item),
        _ => return None,
    })
}

pub fn find_panic(v: &[(&'static str, Val)], path: &str) -> Option<(String, String)> {
    for (n, x) in v {
        let p = if path.is_empty() { n.to_string() } else { format!("{}.{}", path, n) };
        match x {
            Val::Panic(l) => return Some((p, l.clone())),
            Val::Rec(r) => if let Some(f) = find_panic(r, &p) { return Some(f) },
            Val::Seq(s) => for y in s {
                match y {
                    Val::Rec(r) => if let Some(f) = find_panic(r, &p) { return Some(f) },
                    Val::Panic(l) => return Some((p, l.clone())),
                    _ => {}
                }
            },
            _ => {}
        }
    }
    None
}

/// Equality with floating-point tolerance; Ok or a description of the difference.
pub fn same(exp: &Val, got: &Val) -> Result<(), String> {
    let bad = || Err(format!("expected {:?}, got {:?}", exp, got));
    let close = |a: f64, b: f64, tol: f64| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * a.abs().max(b.abs());
    match (exp, got) {
        (Val::Any, _) => Ok(()),
        (Val::F64(a), Val::F64(b)) => if close(*a, *b, 1e-12) { Ok(()) } else { bad() },
        (Val::F32(a), Val::F32(b)) => if close(*a as f64, *b as f64, 1e-6) { Ok(()) } else { bad() },
        (Val::Rec(a), Val::Rec(b)) => {
            if a.len() != b.len() { return bad(); }
            for ((n, x), (m, y)) in a.iter().zip(b) {
                if n != m { return bad(); }
                same(x, y).map_err(|e| format!("{}: {}", n, e))?;
            }
            Ok(())
        },
        (Val::Seq(a), Val::Seq(b)) => {
            if a.len() != b.len() { return Err(format!("expected {} records, got {}", a.len(), b.len())); }
            for (i, (x, y)) in a.iter().zip(b).enumerate() { same(x, y).map_err(|e| format!("record {}: {}", i, e))?; }
            Ok(())
        },
        _ => if exp == got { Ok(()) } else { bad() },
    }
}
