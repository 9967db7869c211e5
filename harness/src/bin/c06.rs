//! C06: enumerations and bit fields decode totally and losslessly.
use vh::frames::*;
use vh::gen_spec::*;
use vh::model::*;
use vh::obs::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

fn mine(f: &Field) -> bool {
    match f.conv {
        Conv::Enum(_) | Conv::Flags(_) => true,
        Conv::Custom(c) => matches!(c, "FixStatusInfo" | "NavSatSvFlags" | "TimTpFlags" | "TimTpRefInfo" | "TimTm2Flags" | "UartMode" | "CfgItfmConfig" | "CfgItfmConfig2"),
        _ => false,
    }
}
fn value(c: &mut Case, p: &'static PacketSpec, f: &'static Field, w: u64, record: bool) -> Res {
    // `record`: p is a repeated record; carry it in its packet
    let outer = if record { packet(if p.name == "NavSatSvInfo" { "NavSat" } else { "RxmRawx" }) } else { p };
    let mut pl = payload(&mut c.rng, outer, Fill::Random);
    let mut base = 0;
    if record {
        let g = group(outer).unwrap();
        let b = c.rng.bytes(2 * g);
        pl.truncate(outer.min);
        pl.extend(b);
        base = outer.min + g * c.rng.below(2);
    }
    if f.size + f.off + base > pl.len() { return Ok(()); }
    pl[base + f.off..base + f.off + f.size].copy_from_slice(&w.to_le_bytes()[..f.size]);
    if !valid(outer, &pl) { c.count("values that must be rejected (see dispatch)", 1); return Ok(()); }
    let o = with_packet(c, outer.class, outer.id, &pl, |q| vh::gen_obs::observe(q))?;
    if o.kind != outer.name { return Ok(()); }
    let vals: Vec<(&'static str, Val)> = if record {
        match o.vals.iter().find_map(|v| if let Val::Seq(s) = &v.1 { Some(s) } else { None }).and_then(|s| s.get((base - outer.min) / group(outer).unwrap())) { Some(Val::Rec(r)) => r.clone(), _ => return Ok(()) }
    } else { o.vals };
    let exp = match decode_field(p, f, &pl[base..]) { Some(e) => e, None => { c.count("reserved encodings without a defined meaning", 1); return Ok(()) } };
    let got = match vals.iter().find(|v| v.0 == f.getter) { Some(g) => &g.1, None => return viol(format!("harness: {} has no {}", p.name, f.getter), "") };
    if let Err(d) = same(&exp, got) { return viol(format!("wrong value of {}.{}", p.name, f.getter), format!("{}.{} for raw value {:#x}: {}", p.name, f.getter, w, d)); }
    // the raw value can be recovered
    if let Some((_, Val::Int(r))) = vals.iter().find(|v| v.0 == f.raw_getter) {
        if *r as u64 & (if f.size == 8 { !0 } else { (1u64 << (8 * f.size)) - 1 }) != w { return viol(format!("raw value of {}.{} lost", p.name, f.getter), format!("{:#x} became {:#x}", w, r)); }
    }
    c.count("values decoded", 1);
    c.distinct(mix(hash_bytes(p.name.as_bytes()) ^ hash_bytes(f.name.as_bytes()) ^ mix(w)));
    if c.want_sample() { c.sample(format!("{}.{} raw {:#x} -> {}", p.name, f.getter, w, crop(&format!("{:?}", got), 200))); }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C06");
    x.boost = 5;
    x.assumptions = vec!["variants, bit positions and meanings frozen in spec/packets.json and spec.rs; reserved UART data-bit/parity encodings have no defined meaning (their panic is the known finding of C08)".into()];
    let ord: Vec<&'static PacketSpec> = order().into_iter().filter(|p| p.name != "MgaGpsEPH").chain([packet("NavSatSvInfo"), packet("RxmRawxInfo")]).collect();
    let fs: Vec<(&'static PacketSpec, &'static Field)> = ord.iter().flat_map(|p| p.fields.iter().filter(|f| mine(f)).map(move |f| (*p, f))).collect();
    let is_rec = |p: &PacketSpec| p.name == "NavSatSvInfo" || p.name == "RxmRawxInfo";
    x.count("enumerated and bit-field fields", fs.len() as u64);
    let small: Vec<_> = fs.iter().filter(|f| f.1.size == 1).cloned().collect();
    let reps = x.n(40, 1_500);
    x.section("all 8-bit values", "every one-byte enumeration or flag field takes all 256 values among random neighbours", small.len() as u64 * 256 * reps, |c| {
        let (p, f) = small[(c.idx / 256) as usize % small.len()];
        value(c, p, f, c.idx & 0xff, is_rec(p))
    });
    let wide: Vec<_> = fs.iter().filter(|f| f.1.size > 1).cloned().collect();
    x.section("bits and pairs of bits", "every wider field: no bit, all bits, each bit alone, each bit missing, each pair of bits", wide.len() as u64 * 64 * 34, |c| {
        let (p, f) = wide[(c.idx % wide.len() as u64) as usize];
        let i = c.idx / wide.len() as u64;
        let bits = f.size as u64 * 8;
        let mask = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
        let (a, b) = (i % 64 % bits, i / 64);
        let w = match b { 32 => mask & !(1 << a), 33 => if a & 1 == 0 { 0 } else { mask }, b => (1u64 << a | 1u64 << (b % bits)) & mask };
        value(c, p, f, w, is_rec(p))
    });
    let n = x.n(1_500, 100_000);
    x.section("random words", "every wider field with random words, and words that are defined for the UART mode", wide.len() as u64 * n * 10, |c| {
        let (p, f) = wide[(c.idx % wide.len() as u64) as usize];
        let mut w = c.rng.u64() & if f.size == 8 { !0 } else { (1u64 << (f.size * 8)) - 1 };
        if f.conv_is("UartMode") { w = w & 0xffff_c13f | uart(c); }
        value(c, p, f, w, is_rec(p))
    });
    if x.thorough {
        let w16: Vec<_> = fs.iter().filter(|f| f.1.size == 2).cloned().collect();
        if !w16.is_empty() {
            x.section("all 16-bit values", "every two-byte field takes all 65536 values", w16.len() as u64 * 65536, |c| { let (p, f) = w16[(c.idx >> 16) as usize]; value(c, p, f, c.idx & 0xffff, is_rec(p)) });
        }
        let loww: Vec<_> = fs.iter().filter(|f| f.1.size > 2).cloned().collect();
        x.section("16-bit halves", "every wider field with all values of its low half and random high bits", loww.len() as u64 * 65536, |c| { let (p, f) = loww[(c.idx >> 16) as usize]; let mut w = c.idx & 0xffff | (c.rng.u64() & 0xffff) << 16; if f.size < 4 { w &= 0xffffff } value(c, p, f, w, is_rec(p)) });
    }
    x.section("flag constants", "every named flag of every flag set has its protocol bit", 1, |c| {
        for (set, name, got) in vh::gen_obs::flag_consts() {
            let e = FLAGS.iter().find(|f| f.name == set).and_then(|f| f.consts.iter().find(|x| x.0 == name)).map(|x| x.1);
            if e != Some(got) { return viol(format!("wrong bit of {}::{}", set, name), format!("{:#x}, expected {:?}", got, e)); }
            c.count("flag constants", 1);
            c.distinct(hash_bytes(format!("{}::{}", set, name).as_bytes()));
        }
        Ok(())
    });
    x.require("values decoded", 30_000);
    x.require("flag constants", 100);
    x.finish()
}
fn uart(c: &mut Case) -> u64 { vh::build::uart_word(&mut c.rng) }
