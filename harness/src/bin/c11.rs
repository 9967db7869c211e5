//! C11: round trips of packets that can be sent and received.
use vh::build::*;
use vh::frames::*;
use vh::gen_build as gb;
use vh::gen_spec::*;
use vh::model::*;
use vh::obs::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

/// The value the accessor must return for what was supplied.
fn supplied(f: &Field, i: &Inp, pl: &[u8]) -> Result<Val, String> {
    Ok(match f.conv {
        Conv::Plain => match i { Inp::I(v) => Val::Int(*v), Inp::B(b) => Val::Bytes(b.clone()), Inp::F(x) => if f.ty == Ty::F32 { Val::F32(*x as f32) } else { Val::F64(*x) } },
        Conv::Enum(e) => Val::Enum(enum_name(&ENUMS[e], i.int() as u64).unwrap(), i.int()),
        Conv::Flags(_) => Val::Flags(i.int() as u64),
        // nearest representable step: judged by difference below
        Conv::Scaled { .. } => Val::Any,
        Conv::Custom("CfgItfmConfig") | Conv::Custom("CfgItfmConfig2") | Conv::Custom("UartMode") => decode_field(packet("CfgItfm"), f, pl).unwrap_or(Val::Any),
        Conv::Custom(c) => return Err(format!("harness: no round trip for {}", c)),
    })
}
fn there_and_back(c: &mut Case, p: &'static PacketSpec, how: Scl) -> Res {
    let (inp, wire) = gen_inputs(&mut c.rng, p, how);
    let (b, _, _) = c.call("building", || gb::bytes(p.name, &inp))?;
    if b.len() < 8 { return viol(format!("{} built too short", p.name), hex(&b)); }
    // the bytes on the wire go through the parser as they are
    let mut ps = ublox::Parser::default();
    let o = c.call("parsing", || { let mut it = ps.consume(&b); let r = match it.next() { Some(Ok(q)) => Some(vh::gen_obs::observe(&q)), _ => None }; (r, it.next().is_none()) })?;
    let o = match o { (Some(o), true) => o, _ => return viol(format!("a built {} does not parse as one packet", p.name), format!("{:?} -> {}", inp, hex(&b))) };
    if o.kind != p.name { return viol(format!("a built {} is received as {}", p.name, o.kind), format!("{:?} -> {}", inp, hex(&b))); }
    for ((f, i), w) in p.fields.iter().zip(&inp).zip(&wire) {
        let got = match o.vals.iter().find(|v| v.0 == f.getter) { Some(g) => &g.1, None => return viol(format!("harness: {}.{}", p.name, f.getter), "") };
        let bad = |d: String| viol(format!("{}.{} does not survive build and parse", p.name, f.name), format!("{}; supplied {:?}, read {:?}, frame {}", d, i, got, hex(&b)));
        match w {
            Wire::Scaled { x, scale, f32: s } => {
                // the supplied number and the number read back differ by at most half a step (or the field is at its limit)
                let (lo, hi) = limits(f.ty);
                let g = match got { Val::F64(v) => *v, Val::F32(v) => *v as f64, _ => return bad("not a number".into()) };
                let q = (x / scale).clamp(lo as f64, hi as f64) * scale;
                let eps = if *s { 4e-7 } else { 1e-14 };
                if !((g - q).abs() <= 0.5 * scale * (1.0 + 1e-6) + q.abs() * eps) { return bad(format!("off by {}", (g - q).abs() / scale)); }
            },
            Wire::Exact(e) => {
                // custom words: what the demanded encoding means
                let mut pl = vec![0; f.off + f.size];
                pl[f.off..].copy_from_slice(e);
                let want = supplied(f, i, &pl).or_else(bad2)?;
                if let Err(d) = same(&want, got) { return bad(d); }
            },
        }
        c.count("fields read back", 1);
    }
    c.count("built and parsed", 1);
    c.distinct_bytes(&b);
    if c.want_sample() { c.sample(format!("{} {:?} -> {}", p.name, inp, hex(&b))); }
    Ok(())
}
fn bad2(e: String) -> Result<Val, Violation> { panic!("{}", e) }
/// Restricts reserved parts of a payload to what the protocol defines.
fn defined(r: &mut Rng, p: &PacketSpec, pl: &mut [u8]) {
    for f in p.fields {
        match f.conv {
            Conv::Enum(e) => { let v = r.pick(ENUMS[e].variants).1; pl[f.off..f.off + f.size].copy_from_slice(&v.to_le_bytes()[..f.size]); },
            Conv::Flags(fi) if r.chance(3, 4) => { let v = le(&pl[f.off..f.off + f.size]) & all_flags(fi); pl[f.off..f.off + f.size].copy_from_slice(&v.to_le_bytes()[..f.size]); },
            Conv::Custom("UartMode") => { let w = uart_canon(uart_word(r)); pl[f.off..f.off + 4].copy_from_slice(&w.to_le_bytes()[..4]); },
            Conv::Custom("CfgItfmConfig") => { let w = if r.bool() { r.u64() & 0xffff_ffff } else { (r.u64() & 0x8000_01ff) | 0x16B156 << 9 }; pl[f.off..f.off + 4].copy_from_slice(&w.to_le_bytes()[..4]); },
            Conv::Custom("CfgItfmConfig2") => { let w = (r.below(3) as u64) << 12 | (r.below(2) as u64) << 14 | 0x31e; pl[f.off..f.off + 4].copy_from_slice(&w.to_le_bytes()[..4]); },
            _ => {},
        }
    }
}
fn main() {
    let mut x = Ctx::new("C11");
    x.boost = 4;
    x.assumptions = vec!["protocol-defined values: listed enumeration members, UART words without reserved bits and with the canonical 'no parity' code, interference words with the prescribed or any other reserved algorithm bits; flag words may carry unnamed bits, which must survive".into()];
    let ord = order();
    let both: Vec<&'static PacketSpec> = sendable().into_iter().filter(|p| p.recv && ord.iter().any(|q| q.name == p.name)).collect();
    let k = both.len() as u64;
    x.count("packets sent and received", k);
    let per = x.n(15_000, 1_000_000);
    x.section("build then parse", "every two-way packet with corner/random values; each field read back equals what was supplied", k * per, |c| there_and_back(c, both[(c.idx % k) as usize], Scl::Representable));
    let per = x.n(4_000, 300_000);
    x.section("build then parse, any number", "scaled fields with arbitrary numbers come back as the nearest representable step", k * per, |c| there_and_back(c, both[(c.idx % k) as usize], Scl::Wild));
    let per = x.n(15_000, 1_000_000);
    x.section("parse then rebuild", "received configuration payloads of protocol-defined values, rebuilt from their own accessors, give the same frame", k * per, |c| {
        let p = both[(c.idx % k) as usize];
        let fill = if c.rng.bool() { Fill::Corner } else { Fill::Random };
        let mut pl = payload(&mut c.rng, p, fill);
        defined(&mut c.rng, p, &mut pl);
        let (kind, back) = with_packet(c, p.class, p.id, &pl, |q| (vh::gen_obs::kind_of(q), gb::rebuild(q)))?;
        if kind != p.name { return viol(format!("a {} payload of defined values is received as {}", p.name, kind), hex(&pl)); }
        let want = frame(p.class, p.id, &pl);
        let back = match back { Some(b) => b, None => return viol(format!("harness: no rebuild of {}", p.name), "") };
        if back != want {
            let f = p.fields.iter().find(|f| f.off + f.size + 6 > back.len() || back[6 + f.off..6 + f.off + f.size] != pl[f.off..f.off + f.size]).map(|f| f.name).unwrap_or("frame");
            return viol(format!("rebuilding a received {} changes {}", p.name, f), format!("received {} rebuilt {}", hex(&want), hex(&back)));
        }
        c.count("rebuilt frames", 1);
        c.distinct_bytes(&want);
        if c.want_sample() { c.sample(format!("{} {}", p.name, hex(&pl))); }
        Ok(())
    });
    x.section("every raw value of 16-bit scaled fields", "all 65536 wire values of every 8/16-bit scaled field of two-way packets survive reading and rebuilding", 65536, |c| {
        for p in &both {
            for f in p.fields.iter().filter(|f| matches!(f.conv, Conv::Scaled { .. }) && f.size <= 2) {
                if f.size == 1 && c.idx > 255 { continue; }
                let mut pl = payload(&mut c.rng, p, Fill::Corner);
                defined(&mut c.rng, p, &mut pl);
                pl[f.off..f.off + f.size].copy_from_slice(&c.idx.to_le_bytes()[..f.size]);
                let back = with_packet(c, p.class, p.id, &pl, |q| gb::rebuild(q))?.unwrap_or_default();
                if back != frame(p.class, p.id, &pl) { return viol(format!("rebuilding a received {} with {} = {}", p.name, f.name, c.idx), format!("received {} rebuilt {}", hex(&pl), hex(&back))); }
                c.evals(1);
                c.count("exhaustive 8/16-bit field values", 1);
            }
        }
        c.distinct(c.idx);
        Ok(())
    });
    x.require("fields read back", 500_000);
    x.require("rebuilt frames", 100_000);
    x.finish()
}
