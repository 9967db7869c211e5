//! C05: fixed fields decode to their protocol value; packet metadata.
use vh::frames::*;
use vh::gen_spec::*;
use vh::model::*;
use vh::obs::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

/// Getters decided here: numbers, byte arrays, scaled numbers and all raw getters.
fn mine(p: &PacketSpec) -> Vec<&'static str> {
    let mut v = vec![];
    for f in p.fields {
        if !f.raw_getter.is_empty() { v.push(f.raw_getter); }
        if matches!(f.conv, Conv::Plain | Conv::Scaled { .. }) { v.push(f.getter); }
    }
    v
}
fn compare(kind: &str, keys: &[&'static str], exp: &[(&'static str, Val)], got: &[(&'static str, Val)], pl: &[u8]) -> Result<u64, Violation> {
    let mut n = 0;
    for k in keys {
        let e = match exp.iter().find(|x| x.0 == *k) { Some(e) => e, None => continue };
        match got.iter().find(|x| x.0 == *k) {
            None => return viol(format!("harness: {} has no {}", kind, k), ""),
            Some(g) => { same(&e.1, &g.1).or_else(|d| viol(format!("wrong value of {}.{}", kind, k), format!("{}.{}: {}; payload {}", kind, k, d, hex(pl))))?; n += 1; },
        }
    }
    Ok(n)
}
fn check(c: &mut Case, p: &'static PacketSpec, pl: &[u8]) -> Res {
    let o = with_packet(c, p.class, p.id, pl, |q| vh::gen_obs::observe(q))?;
    if o.kind != p.name { c.count("delivered as another type", 1); return Ok(()); }
    let exp = decode(p, pl);
    let n = compare(p.name, &mine(p), &exp, &o.vals, pl)?;
    c.count("field values compared", n);
    // repeated records: their fixed fields
    for (sub, getter) in [("NavSatSvInfo", "svs"), ("RxmRawxInfo", "measurements")] {
        let (Some((_, Val::Seq(e))), Some((_, Val::Seq(g)))) = (exp.iter().find(|x| x.0 == getter), o.vals.iter().find(|x| x.0 == getter)) else { continue };
        if !(p.name == "NavSat" && sub == "NavSatSvInfo" || p.name == "RxmRawx" && sub == "RxmRawxInfo") { continue; }
        for (e, g) in e.iter().zip(g) {
            if let (Val::Rec(e), Val::Rec(g)) = (e, g) { let n = compare(sub, &mine(packet(sub)), e, g, pl)?; c.count("record field values compared", n); }
        }
    }
    c.seen("packet types", hash_bytes(p.name.as_bytes()));
    c.distinct(hash_bytes(pl) ^ hash_bytes(p.name.as_bytes()));
    if c.want_sample() { c.sample(format!("{} {} -> {}", p.name, crop(&hex(pl), 100), crop(&format!("{:?}", o.vals), 200))); }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C05");
    x.boost = 5;
    x.assumptions = vec!["offsets, widths, signs, scales frozen in spec/packets.json; floats equal up to a relative 1e-12 (f64) or 1e-6 (f32)".into()];
    let ord: Vec<&'static PacketSpec> = order().into_iter().filter(|p| p.name != "MgaGpsEPH").collect();
    let k = ord.len() as u64;
    x.count("received packet types", k);
    // the getters the observers show must cover the table
    x.section("metadata", "class, id, fixed and maximum payload length of every packet type", 1, |c| {
        for m in vh::gen_obs::metas() {
            let p = packet(m.name);
            let e = (p.class, p.id, p.fixed.map(|x| x as u16), p.max as u16);
            if (m.class, m.id, m.fixed, m.max) != e { return viol(format!("wrong metadata of {}", m.name), format!("(class, id, fixed length, maximum length) {:?}, expected {:?}", (m.class, m.id, m.fixed, m.max), e)); }
            c.count("packet types with metadata", 1);
            c.distinct(hash_bytes(m.name.as_bytes()));
        }
        Ok(())
    });
    let per = x.n(6_000, 200_000);
    x.section("field corners", "every packet with every field set to corner values of its width (0, 1, maximum, minimum, single bits, random)", k * per, |c| {
        let p = ord[(c.idx % k) as usize];
        let pl = payload(&mut c.rng, p, Fill::Corner);
        check(c, p, &pl)
    });
    let per = x.n(2_000, 100_000);
    x.section("random payloads", "every packet with random, constant, single-bit payloads", k * per, |c| {
        let p = ord[(c.idx % k) as usize];
        let pl = payload(&mut c.rng, p, Fill::Random);
        check(c, p, &pl)
    });
    let fields: Vec<(&'static PacketSpec, &'static Field)> = ord.iter().flat_map(|p| p.fields.iter().map(move |f| (*p, f))).filter(|(_, f)| f.size > 0 && f.size <= 8).collect();
    let nf = fields.len() as u64;
    x.count("fixed numeric fields", nf);
    let per = x.n(80, 260);
    x.section("single bits", "every field alone: each of its bits set in a zero payload and cleared in an all-ones one, all byte values of one-byte fields in thorough", nf * per, |c| {
        let (p, f) = fields[(c.idx % nf) as usize];
        let i = (c.idx / nf) as usize;
        let mut pl = payload(&mut c.rng, p, Fill::Corner);
        if i < 64 { let b = i % (f.size * 8); let ones = i & 1 == 1; for z in pl.iter_mut() { *z = if ones { 0xff } else { 0 }; } pl[f.off + b / 8] ^= 1 << (b % 8); }
        else { let b = (i - 64).to_le_bytes(); for z in 0..f.size { pl[f.off + z] = if c.rng.bool() { b[z] } else { c.rng.u8() }; } }
        if p.name == "EsfMeas" { pl.truncate(8); pl[5] &= 0x07; pl[4] &= !8; }
        let mut q = pl.clone();
        make_valid(&mut c.rng, p, &mut q);
        // keep the field under test unless validity forbids its value
        q[f.off..f.off + f.size].copy_from_slice(&pl[f.off..f.off + f.size]);
        if !valid(p, &q) || f.conv_is("UartMode") { make_valid(&mut c.rng, p, &mut q); }
        if !valid(p, &q) { return Ok(()); }
        check(c, p, &q)
    });
    x.require("field values compared", 500_000);
    x.require("record field values compared", 50_000);
    x.finish()
}
