//! C04: dispatch to the right packet type, or Unknown verbatim.
use vh::frames::*;
use vh::gen_spec::*;
use vh::model::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

fn check(c: &mut Case, class: u8, id: u8, pl: &[u8]) -> Res {
    let pl = &pl[..pl.len().min(MAX)];
    let exp = dispatch(class, id, pl).map(|p| p.name).unwrap_or("Unknown");
    with_packet(c, class, id, pl, |p| {
        let kind = vh::gen_obs::kind_of(p);
        let ci = p.class_and_msg_id();
        let got = vh::gen_obs::payload_of(p);
        if kind != exp {
            let n = PACKETS.iter().filter(|q| q.class == class && q.id == id && q.recv).map(|q| q.name).collect::<Vec<_>>();
            return viol(format!("delivered as {} instead of {}", kind, exp), format!("class {:02x} id {:02x} payload ({} bytes) {}: candidates {:?}", class, id, pl.len(), hex(pl), n));
        }
        if ci != (class, id) { return viol(format!("{} reports another class or id", kind), format!("{:02x?} for a frame of {:02x}-{:02x}", ci, class, id)); }
        if got != pl { return viol(format!("{} reports another payload", kind), format!("{} instead of {}", hex(got), hex(pl))); }
        Ok(())
    })??;
    c.count(if exp == "Unknown" { "delivered as unknown" } else { "delivered typed" }, 1);
    if exp != "Unknown" { c.seen("packet types", hash_bytes(exp.as_bytes())); }
    c.seen("class/id pairs", (class as u64) << 8 | id as u64);
    c.distinct(hash_bytes(pl) ^ mix((class as u64) << 8 | id as u64));
    if c.want_sample() { c.sample(format!("{:02x}-{:02x} {} bytes {} -> {}", class, id, pl.len(), crop(&hex(pl), 80), exp)); }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C04");
    x.boost = 3;
    x.assumptions = vec!["packet table, length and validity rules frozen in spec/packets.json".into()];
    x.section("all class/id pairs", "each of the 65536 class/id pairs with a random payload of a length some packet has", 65536, |c| {
        let (cl, id) = ((c.idx >> 8) as u8, c.idx as u8);
        let n = *c.rng.pick(&[0usize, 1, 2, 4, 8, 10, 20, 28, 36, 40, 92]);
        let pl = c.rng.bytes(n);
        check(c, cl, id, &pl)
    });
    let ord = order();
    let k = ord.len() as u64;
    let per = x.n(2_500, 16_354);
    x.section("lengths", "every received packet with every payload length 0..300 and sampled lengths up to 8176 (thorough: all), contents otherwise valid", k * per, |c| {
        let p = ord[(c.idx % k) as usize];
        let i = (c.idx / k) as usize;
        let n = if i < 300 || c.thorough && i < 8177 { i } else { match c.rng.below(4) { 0 => c.rng.below(MAX + 1), 1 => MAX - c.rng.below(40), 2 => (p.max + c.rng.below(65)).saturating_sub(32).min(MAX), _ => { let g = group(p).unwrap_or(1); p.min + g * c.rng.below(200) + c.rng.below(2) } } }.min(MAX);
        let mut pl = c.rng.bytes(n);
        if n >= p.min { make_valid(&mut c.rng, p, &mut pl); }
        check(c, p.class, p.id, &pl)
    });
    // validated one-byte fields: all values
    let en: Vec<(&PacketSpec, usize)> = ord.iter().flat_map(|p| p.fields.iter().filter(|f| matches!(f.conv, Conv::Enum(_)) && f.size == 1).map(move |f| (*p, f.off))).collect();
    let m = en.len() as u64;
    x.count("one-byte enumeration fields", m);
    x.section("enumeration values", "every one-byte enumeration field of every packet takes all 256 values, the rest random but valid, 3 payloads each", m * 256 * 3, |c| {
        let (p, off) = en[(c.idx / 768) as usize];
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        if off < pl.len() { pl[off] = c.idx as u8; }
        check(c, p.class, p.id, &pl)
    });
    let txt: Vec<(&PacketSpec, usize, usize)> = ord.iter().flat_map(|p| p.fields.iter().filter(|f| f.conv_is("&str")).map(move |f| (*p, f.off, f.size))).collect();
    x.count("string fields", txt.len() as u64);
    let n = x.n(300_000, 10_000_000);
    x.section("strings and records", "version packets whose strings lack a terminator, hold broken UTF-8 before or after it, or have the terminator in the last byte; the same for extension records", n, |c| {
        let p = packet("MonVer");
        let mut pl = payload(&mut c.rng, p, Fill::Random);
        let mut slots: Vec<(usize, usize)> = txt.iter().map(|t| (t.1, t.2)).collect();
        let mut o = 40;
        while o + 30 <= pl.len() { slots.push((o, 30)); o += 30; }
        let (o, n) = *c.rng.pick(&slots);
        let s = &mut pl[o..o + n];
        match c.rng.below(8) {
            0 => for b in s.iter_mut() { if *b == 0 { *b = b'x' } },
            1 => { for b in s.iter_mut() { *b = b'a'; } s[n - 1] = 0; },
            2 => { let z = s.iter().position(|b| *b == 0).unwrap(); let b = *c.rng.pick(&[0x80, 0xff, 0xc0, 0xed, 0xf5]); let i = c.rng.below(n); if i < z { s[i] = b } else if i > z { s[i] = b } },
            3 => { for b in s.iter_mut() { *b = b'a'; } let k = c.rng.below(n - 3); s[k] = 0xe2; s[k + 1] = 0x82; s[k + 2] = if c.rng.bool() { 0xac } else { 0 }; s[n - 1] = 0; },
            4 => { let b = c.rng.bytes(n); s.copy_from_slice(&b); },
            5 => { let k = c.rng.below(n); s[k] = 0; },
            6 => { for b in s.iter_mut() { *b = 0xff; } s[0] = 0; },
            _ => {},
        }
        if c.rng.chance(1, 8) { let n = c.rng.below(40); pl.truncate(pl.len() - n.min(pl.len())); }
        check(c, p.class, p.id, &pl)
    });
    let n = x.n(600_000, 30_000_000);
    x.section("random payloads", "received packets with random payloads at and around their length rule; packets sharing a class and id; sensor data with every flag combination", n, |c| {
        let p = *c.rng.pick(&ord);
        let p = if c.rng.chance(1, 4) { packet(*c.rng.pick(&["CfgPrtI2c", "EsfMeas", "MgaGpsEph", "MgaGpsEPH", "RxmRawx", "NavSat", "RxmSfrbx", "EsfRaw"])) } else { p };
        let mut pl = payload(&mut c.rng, if p.name == "MgaGpsEPH" { packet("MgaGpsEph") } else { p }, Fill::Random);
        match c.rng.below(6) {
            0 => { pl.pop(); },
            1 => { let n = c.rng.range(1, 40); let b = c.rng.bytes(n); pl.extend(b); },
            2 => { if !pl.is_empty() { let i = c.rng.below(pl.len()); pl[i] = c.rng.u8(); } },
            3 => { let n = pl.len(); pl = c.rng.bytes(n); },
            4 if p.name == "EsfMeas" && pl.len() >= 8 => { let f = c.rng.u64() as u16; pl[4..6].copy_from_slice(&f.to_le_bytes()); let n = 8 + 4 * c.rng.below(36); pl.resize(n, 7); },
            4 if p.class == 6 && p.id == 0 && !pl.is_empty() => { pl[0] = c.rng.u8() & 7; },
            _ => {},
        }
        let (mut cl, mut id) = (p.class, p.id);
        if c.rng.chance(1, 10) { std::mem::swap(&mut cl, &mut id); }
        if c.rng.chance(1, 20) { id = id.wrapping_add(1); }
        check(c, cl, id, &pl)
    });
    x.require("delivered typed", 50_000);
    x.require("delivered as unknown", 50_000);
    x.finish()
}
