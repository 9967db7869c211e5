//! C07: repeated groups and strings yield exactly the records on the wire.
use vh::frames::*;
use vh::gen_spec::*;
use vh::model::*;
use vh::obs::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

fn mine(f: &Field) -> bool { matches!(f.conv, Conv::Custom("&str" | "Option<&str>" | "NavSatIter" | "RxmRawxInfoIter" | "MonVerExtensionIter" | "DwrdIter" | "EsfMeasDataIter" | "Option<u32>" | "EsfRawDataIter")) }

fn check(c: &mut Case, p: &'static PacketSpec, pl: &[u8]) -> Res {
    let o = with_packet(c, p.class, p.id, pl, |q| vh::gen_obs::observe(q))?;
    if o.kind != p.name { c.count("delivered as another type (see dispatch)", 1); return Ok(()); }
    for f in p.fields.iter().filter(|f| mine(f)) {
        let Some(exp) = decode_field(p, f, pl) else { continue };
        let Some((_, got)) = o.vals.iter().find(|v| v.0 == f.getter) else { return viol(format!("harness: {} has no {}", p.name, f.getter), "") };
        if let Err(d) = same(&exp, got) { return viol(format!("wrong contents of {}.{}", p.name, f.getter), format!("{}.{}: {}; payload ({} bytes) {}", p.name, f.getter, crop(&d, 600), pl.len(), hex(pl))); }
        match &exp {
            Val::Seq(s) => { c.count("records compared", s.len() as u64); c.seen("packet, record count", hash_bytes(f.name.as_bytes()) ^ mix(hash_bytes(p.name.as_bytes()) ^ s.len() as u64)); },
            Val::None => c.count("absent values", 1),
            Val::Str(_) => c.count("texts compared", 1),
            _ => c.count("optional values present", 1),
        }
    }
    c.distinct(hash_bytes(pl) ^ hash_bytes(p.name.as_bytes()));
    if c.want_sample() { c.sample(format!("{} {} bytes {} -> {}", p.name, pl.len(), crop(&hex(pl), 80), crop(&format!("{:?}", o.vals), 200))); }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C07");
    x.boost = 2;
    x.assumptions = vec!["record sizes and positions frozen in spec/packets.json; the iterator is polled three more times after its end".into()];
    let ps: Vec<&'static PacketSpec> = order().into_iter().filter(|p| p.fixed.is_none()).collect();
    x.count("variable-length packet types", ps.len() as u64);
    let k = ps.len() as u64;
    x.section("every record count", "every variable-length packet with every number of records (or text length) from 0 to its declared maximum (at most 1100), random contents", k * 1100, |c| {
        let p = ps[(c.idx % k) as usize];
        let n = (c.idx / k) as usize;
        let g = group(p).unwrap();
        if p.min + g * n > p.max.max(p.min + 40 * g).min(MAX) { return Ok(()); }
        let mut pl = c.rng.bytes(p.min + g * n);
        if p.name == "EsfMeas" { let tag = n > 0 && c.rng.bool(); let num = (n - tag as usize).min(31); let fl = (num as u16) << 11 | (tag as u16) << 3 | (c.rng.u64() as u16 & 0x7f7); pl[4..6].copy_from_slice(&fl.to_le_bytes()); }
        make_valid(&mut c.rng, p, &mut pl);
        check(c, p, &pl)
    });
    let n = x.n(25_000, 1_000_000);
    x.section("random contents", "random valid payloads; texts mix ASCII, 2-4 byte UTF-8, control characters and broken sequences at random places", n * k, |c| {
        let p = ps[(c.idx % k) as usize];
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        if p.fields.iter().any(|f| f.conv_is("Option<&str>")) && !pl.is_empty() && c.rng.chance(1, 3) {
            let i = c.rng.below(pl.len());
            pl[i] = *c.rng.pick(&[0, 0x80, 0xc3, 0xe2, 0xf0, 0xff, 0xed, 0xc0]);
        }
        check(c, p, &pl)
    });
    let n = x.n(60, 2_000);
    let em = packet("EsfMeas");
    x.section("count and tag combinations", "sensor measurements: every 5-bit count with and without the tag flag, with 0-3 surplus words", 64 * 4 * n, |c| {
        let (num, tag, extra) = ((c.idx % 32) as usize, c.idx >> 5 & 1 == 1, (c.idx >> 6 & 3) as usize);
        let mut pl = c.rng.bytes(8 + 4 * (num + tag as usize) + 4 * extra);
        let fl = (num as u16) << 11 | (tag as u16) << 3 | (c.rng.u64() as u16 & 0x7f7);
        pl[4..6].copy_from_slice(&fl.to_le_bytes());
        check(c, em, &pl)
    });
    let it: Vec<&'static PacketSpec> = ps.iter().copied().filter(|p| p.fields.iter().any(|f| matches!(f.conv, Conv::Custom(n) if n.ends_with("Iter")))).collect();
    x.count("packet types with an iterator", it.len() as u64);
    let (n, k) = (x.n(4_000, 200_000), it.len() as u64);
    x.section("iterator histories", "random histories of 4-23 operations (next, nth, clone, count, last, step_by, skip, for_each, fold, size_hint, a second iterator) on several iterators of one packet at once, against the plain walk", n * k, |c| {
        let p = it[(c.idx % k) as usize];
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        if p.name == "EsfMeas" { pl[5] |= 8; make_valid(&mut c.rng, p, &mut pl); }
        let mut rng = c.rng.clone();
        let r = with_packet(c, p.class, p.id, &pl, |q| vh::obs::histories(q, &mut rng))?;
        match r {
            Some(Ok(n)) => c.count("iterator operations compared", n),
            Some(Err(e)) => return viol(format!("iterator of {}", p.name), format!("{}; payload ({} bytes) {}", e, pl.len(), hex(&pl))),
            None => c.count("delivered as another type (see dispatch)", 1),
        }
        c.distinct(hash_bytes(&pl) ^ 7);
        Ok(())
    });
    x.require("iterator operations compared", 50_000);
    x.require("records compared", 1_000_000);
    x.require("texts compared", 10_000);
    x.require("absent values", 1_000);
    x.require("optional values present", 500);
    x.finish()
}
