//! C25: debug text shows every field once, in order, with the value its accessor returns.
use vh::frames::*;
use vh::gen_obs::*;
use vh::gen_spec::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

fn check(c: &Case, class: u8, id: u8, pl: &[u8]) -> Res {
    let (kind, texts, mut inner) = with_packet(c, class, id, pl, |q| {
        let (a, b) = inner_debug(q);
        let mut t = vec![("packet".to_string(), a, b), ("enumeration".to_string(), format!("{:?}", q), format!("{:?}", DebugOf(q)))];
        if c.idx % 4 == 0 { t.push(("pretty text".into(), format!("{:#?}", q), format!("{:#?}", DebugOf(q)))); }
        (kind_of(q), t, vh::obs::record_texts(q))
    })?;
    let mut all = texts;
    c.count("records printed", inner.len() as u64);
    all.append(&mut inner);
    for (what, a, b) in &all {
        if a != b {
            let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(40);
            let cut = |s: &str| s.chars().skip(at).take(160).collect::<String>();
            return viol(format!("debug text of {} does not follow from its accessors", kind), format!("{}: printed ...{}..., the accessors give ...{}...; payload {}", what, cut(a), cut(b), hex(pl)));
        }
    }
    // every field name of the packet appears (the expected text is generated from the frozen table)
    c.count("texts compared", all.len() as u64);
    c.count("characters compared", all.iter().map(|x| x.1.len() as u64).sum());
    c.seen("packet types", hash_bytes(kind.as_bytes()));
    c.distinct(hash_bytes(pl) ^ hash_bytes(kind.as_bytes()));
    if c.want_sample() { c.sample(crop(&all[1].1, 300)); }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C25");
    x.boost = 8;
    x.assumptions = vec!["the text of an iterator itself (its position and bytes) and of raw-word wrappers without a hand-written format is not judged; UART words with reserved encodings are excluded (recorded finding of C08)".into()];
    let ord: Vec<&'static PacketSpec> = order().into_iter().filter(|p| p.name != "MgaGpsEPH").collect();
    let k = ord.len() as u64;
    let per = x.n(600, 40_000);
    x.section("payloads", "every received packet with corner and random payloads: plain and pretty text of the packet, of the packet inside the enumeration of all packets and of every record, compared with a text built field by field from the accessors", per * k, |c| {
        let p = ord[(c.idx % k) as usize];
        let f = if c.rng.bool() { Fill::Corner } else { Fill::Random };
        let pl = payload(&mut c.rng, p, f);
        check(c, p.class, p.id, &pl)
    });
    let n = x.n(40_000, 2_000_000);
    x.section("satellite flag words", "one satellite with every combination of a sub-field value and random other bits", n, |c| {
        let p = packet("NavSat");
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        pl.truncate(8);
        let b = c.rng.bytes(12);
        pl.extend(b);
        pl[5] = 1;
        let at = *c.rng.pick(&[0u32, 4, 8, 11, 14, 16, 20]);
        let w = (le(&pl[16..20]) as u32 & !(15 << at)) | ((c.idx as u32 & 15) << at);
        pl[16..20].copy_from_slice(&w.to_le_bytes());
        check(c, 1, 0x35, &pl)
    });
    let n = x.n(6_000, 300_000);
    x.section("unknown packets", "arbitrary class, id and payload", n, |c| {
        let (class, id) = if c.rng.bool() { (c.rng.u8(), c.rng.u8()) } else { let p = ord[c.rng.below(ord.len())]; (p.class, p.id) };
        let n = match c.rng.below(4) { 0 => 0, 1 => 1, _ => c.rng.below(120) };
        let pl = c.rng.bytes(n);
        if let Some(p) = dispatch(class, id, &pl) { if p.name == "CfgPrtUart" { return Ok(()); } }
        check(c, class, id, &pl)
    });
    x.require("texts compared", 100_000);
    x.require("records printed", 10_000);
    x.finish()
}
