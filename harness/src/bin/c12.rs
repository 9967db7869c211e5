//! C12: scaled builder fields encode to the nearest step and saturate.
use vh::build::*;
use vh::gen_build as gb;
use vh::obs::Val;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

fn check(c: &mut Case, p: &'static PacketSpec, fi: usize, v: f64) -> Res {
    let f = &p.fields[fi];
    let (scale, s) = match f.conv { Conv::Scaled { f32: s, scale } => (scale, s), _ => panic!("harness: not scaled") };
    let v = if s { v as f32 as f64 } else { v };
    if v.is_nan() { return Ok(()); }
    let (mut inp, _) = gen_inputs(&mut c.rng, p, Scl::Representable);
    inp[fi] = Inp::F(v);
    let b = match c.call("encoding", || gb::bytes(p.name, &inp)) { Ok((b, _, _)) => b, Err(e) => return viol(format!("encoding {}.{} panics", p.name, f.name), format!("value {:e}: {}", v, e.detail)) };
    if b.len() != p.fixed.unwrap() + 8 { return viol(format!("{} built with a wrong size", p.name), hex(&b)); }
    let r = match raw(f, &b[6..]) { Val::Int(i) => i, x => panic!("harness: {:?}", x) };
    let (lo, hi) = limits(f.ty);
    if v < 0.0 && r > 0 { return viol(format!("{}.{}: a negative value becomes positive", p.name, f.name), format!("{:e} encoded as {}", v, r)); }
    if v > 0.0 && r < 0 { return viol(format!("{}.{}: a positive value becomes negative", p.name, f.name), format!("{:e} encoded as {}", v, r)); }
    check_scaled(v, scale, s, f.ty, r).or_else(|e| viol(format!("{}.{} is not encoded to the nearest step", p.name, f.name), e))?;
    let q = v / scale;
    c.count(if q > hi as f64 { "above the range" } else if q < lo as f64 { "below the range" } else if (q.fract().abs() - 0.5).abs() < 1e-3 { "near half-way" } else { "inside the range" }, 1);
    c.distinct(mix(v.to_bits() ^ (fi as u64) << 3) ^ hash_bytes(p.name.as_bytes()));
    if c.want_sample() { c.sample(format!("{}.{} {:e} -> {}", p.name, f.name, v, r)); }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C12");
    x.boost = 10;
    x.assumptions = vec!["nearest within floating-point rounding of the division (relative 4 ulp of the field's float type); NaN excluded".into()];
    let fields: Vec<(&'static PacketSpec, usize)> = sendable().iter().flat_map(|p| p.fields.iter().enumerate().filter(|(_, f)| matches!(f.conv, Conv::Scaled { .. })).map(move |(i, _)| (*p, i))).collect();
    let nf = fields.len() as u64;
    x.count("scaled builder fields", nf);
    let per = x.n(20_000, 2_000_000);
    x.section("any number", "every scaled field with representable, half-way, just-outside, extreme, denormal, infinite and random-bit numbers", nf * per, |c| {
        let (p, fi) = fields[(c.idx % nf) as usize];
        let (scale, s) = match p.fields[fi].conv { Conv::Scaled { f32: s, scale } => (scale, s), _ => unreachable!() };
        let v = gen_scaled(&mut c.rng, p.fields[fi].ty, scale, s, Scl::Wild);
        check(c, p, fi, v)
    });
    let steps: i64 = x.n(700, 20_000) as i64;
    x.section("around the limits", "every scaled field, quarter steps from below to above both limits and around zero", nf * 3 * steps as u64, |c| {
        let (p, fi) = fields[(c.idx % nf) as usize];
        let i = c.idx / nf;
        let f = &p.fields[fi];
        let scale = match f.conv { Conv::Scaled { scale, .. } => scale, _ => unreachable!() };
        let (lo, hi) = limits(f.ty);
        let base = [lo, hi, 0][(i % 3) as usize] as f64;
        let d = (i / 3) as i64 - steps / 2;
        check(c, p, fi, (base + d as f64 * 0.25) * scale)
    });
    let pow = 2200;
    x.section("magnitudes", "every scaled field with both signs of powers of two over the whole floating-point range, and neighbours", nf * pow, |c| {
        let (p, fi) = fields[(c.idx % nf) as usize];
        let i = (c.idx / nf) as i32 - 1100;
        let v = 2f64.powi(i);
        for v in [v, -v, v * 1.5, -v * 1.4999999] { check(c, p, fi, v)?; }
        c.evals(3);
        Ok(())
    });
    x.require("above the range", 10_000);
    x.require("below the range", 10_000);
    x.require("near half-way", 10_000);
    x.finish()
}
