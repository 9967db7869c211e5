//! C10: every built packet is one well-formed frame, identical on all outputs.
use ublox::UbxPacketRequest;
use vh::build::*;
use vh::gen_build as gb;
use vh::model::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

/// Checks frame structure and payload of the built bytes; returns the payload.
fn frame_of<'a>(p: &PacketSpec, b: &'a [u8], what: &str) -> Result<&'a [u8], Violation> {
    let n = p.fixed.unwrap();
    if b.len() != n + 8 { return viol(format!("{} built by {} has a wrong size", p.name, what), format!("{} bytes, expected {}: {}", b.len(), n + 8, hex(b))); }
    let head = [0xb5, 0x62, p.class, p.id, n as u8, (n >> 8) as u8];
    if b[..6] != head { return viol(format!("wrong header of {} built by {}", p.name, what), format!("{} expected {}", hex(&b[..6]), hex(&head))); }
    let (x, y) = cksum(&b[2..n + 6]);
    if b[n + 6..] != [x, y] { return viol(format!("wrong checksum of {} built by {}", p.name, what), format!("{} expected {}", hex(b), hex(&[x, y]))); }
    Ok(&b[6..n + 6])
}
fn check(c: &mut Case, p: &'static PacketSpec, inp: &[Inp], wire: &[Wire]) -> Res {
    let (explicit, from, adv) = c.call("building", || gb::bytes(p.name, inp))?;
    let pl = frame_of(p, &explicit, "into_packet_bytes")?;
    check_wire(p, wire, pl).or_else(|(f, d)| viol(format!("wrong encoding of {}.{}", p.name, f), format!("{} from {:?}; frame {}", d, inp, hex(&explicit))))?;
    c.count("fields compared on the wire", p.fields.len() as u64);
    if adv != explicit.len() { return viol(format!("advertised length of {}", p.name), format!("PACKET_LEN {} but {} bytes", adv, explicit.len())); }
    if from != explicit { return viol(format!("From<{}Builder> differs from into_packet_bytes", p.name), format!("{} vs {}", hex(&from), hex(&explicit))); }
    // the writer appends to whatever the vector holds
    let n = *c.rng.pick(&[0usize, 0, 1, 2, 6, 8, 100]);
    let pre = c.rng.bytes(n);
    let mut out = pre.clone();
    match c.call("writing", || gb::create(p.name, inp, &mut out))? { Ok(()) => {}, Err(e) => return viol(format!("create_packet of {} fails on a vector", p.name), format!("{:?}", e)) }
    if out[..n.min(out.len())] != pre[..] || out.get(n..) != Some(&explicit[..]) { return viol(format!("create_packet of {} writes different bytes", p.name), format!("into {} -> {}, expected {}", hex(&pre), hex(&out), hex(&explicit))); }
    c.count("frames compared on three outputs", 1);
    c.seen("packet types built", hash_bytes(p.name.as_bytes()));
    c.distinct_bytes(&explicit);
    if c.want_sample() { c.sample(format!("{} {:?} -> {}", p.name, inp, hex(&explicit))); }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C10");
    x.boost = 10;
    x.assumptions = vec!["field offsets, widths and encodings frozen in spec/packets.json; scaled fields within one rounding of value/scale (nearest: see C12)".into(), "flag values limited to named bits (the safe constructor)".into()];
    let send = sendable();
    let k = send.len() as u64;
    x.count("sendable packets", k);
    let per = x.n(20_000, 1_000_000);
    x.section("field values", "every builder with corner and random values of every field", k * per, |c| {
        let p = send[(c.idx % k) as usize];
        let (i, w) = gen_inputs(&mut c.rng, p, Scl::Representable);
        check(c, p, &i, &w)
    });
    let per = x.n(5_000, 250_000);
    x.section("any physical value", "every builder with arbitrary non-NaN floating-point inputs", k * per, |c| {
        let p = send[(c.idx % k) as usize];
        let (i, w) = gen_inputs(&mut c.rng, p, Scl::Wild);
        check(c, p, &i, &w)
    });
    // one field varied at a time, all others fixed: every enumeration member, every flag bit, every byte value
    let fields: Vec<(&'static PacketSpec, usize)> = send.iter().flat_map(|p| (0..p.fields.len()).map(move |i| (*p, i))).collect();
    let nf = fields.len() as u64;
    x.count("builder fields", nf);
    x.section("one field at a time", "each builder field alone: all members of enumerations, all single flags, all byte values (quick: all), others constant", nf * 256, |c| {
        let (p, fi) = fields[(c.idx % nf) as usize];
        let v = c.idx / nf;
        let (mut i, mut w) = gen_inputs(&mut c.rng, p, Scl::Representable);
        let f = &p.fields[fi];
        let set = |i: &mut Vec<Inp>, w: &mut Vec<Wire>, v: u64| { i[fi] = Inp::I(v as i128); w[fi] = Wire::Exact(v.to_le_bytes()[..f.size].to_vec()); };
        match f.conv {
            Conv::Enum(e) => { let m = vh::gen_spec::ENUMS[e].variants; let v = m[v as usize % m.len()].1; set(&mut i, &mut w, v) },
            Conv::Flags(fl) => { let m = vh::gen_spec::FLAGS[fl].consts; let b = m[v as usize % m.len()].1; let b = if v as usize / m.len() % 2 == 0 { b } else { all_flags(fl) & !b }; set(&mut i, &mut w, b) },
            Conv::Plain if f.size == 1 && f.ty == Ty::U8 => set(&mut i, &mut w, v),
            Conv::Plain if f.ty == Ty::U16 || f.ty == Ty::U32 => set(&mut i, &mut w, 1u64 << (v as usize % (f.size * 8))),
            _ => {},
        }
        check(c, p, &i, &w)
    });
    x.section("defaults", "builders with default values are well-formed frames with every field at its default", 1, |c| {
        for p in sendable() {
            if !p.default_builder { continue; }
            let b = c.call("building a default", || gb::default_bytes(p.name))?.expect("harness: default builder");
            let pl = frame_of(p, &b, "Default")?;
            for f in p.fields {
                let e = match f.conv {
                    Conv::Enum(e) => { let e = &vh::gen_spec::ENUMS[e]; e.variants.iter().find(|v| v.0 == e.default).map(|v| v.1) },
                    Conv::Custom(_) => None,
                    _ => Some(0),
                };
                if let Some(e) = e { if pl[f.off..f.off + f.size] != e.to_le_bytes()[..f.size.min(8)] && !(f.size > 8 && pl[f.off..f.off + f.size].iter().all(|b| *b == 0)) { return viol(format!("default of {}.{}", p.name, f.name), format!("{} in {}", hex(&pl[f.off..f.off + f.size]), hex(&b))); } c.count("default fields", 1); }
            }
            c.distinct_bytes(&b);
        }
        // documented defaults and predefined values of the composed words
        use ublox::*;
        let rst = |m: NavBbrMask| CfgRstBuilder { nav_bbr_mask: m, reset_mode: ResetMode::ControlledSoftwareReset, reserved1: 0 }.into_packet_bytes();
        let named = vh::gen_spec::FLAGS.iter().find(|f| f.name == "NavBbrMask").unwrap().consts.iter().fold(0, |a, x| a | x.1) as u16;
        let word = |b: &[u8]| u16::from_le_bytes([b[6], b[7]]);
        let itfm = |a, b| { let f = CfgItfmBuilder { config: a, config2: b }.into_packet_bytes(); (u32::from_le_bytes([f[6], f[7], f[8], f[9]]), u32::from_le_bytes([f[10], f[11], f[12], f[13]])) };
        for (what, got, want) in [
            ("hot start mask", word(&rst(NavBbrPredefinedMask::HOT_START.into())) as u32, 0),
            ("warm start mask", word(&rst(NavBbrPredefinedMask::WARM_START.into())) as u32, 1),
            ("cold start mask, named bits", (word(&rst(NavBbrPredefinedMask::COLD_START.into())) & named) as u32, named as u32),
            ("reset mode", rst(NavBbrMask::empty())[8] as u32, 1),
            ("interference configuration, switched off", itfm(CfgItfmConfig::new(false, 3, 15), CfgItfmConfig2::from(0)).0, 0x16B156 << 9 | 15 << 4 | 3),
            ("interference configuration, switched on", itfm(CfgItfmConfig::new(true, 0, 31), CfgItfmConfig2::from(0)).0, 1 << 31 | 0x16B156 << 9 | 31 << 4),
            ("interference configuration 2", itfm(CfgItfmConfig::from(0), CfgItfmConfig2::new(CfgItfmAntennaSettings::Passive, true)).1, 1 << 14 | 2 << 12 | 0x31E),
            ("default antenna setting", CfgItfmAntennaSettings::default() as u32, 0),
            ("default configuration layers", CfgLayer::default().bits() as u32, 7),
        ] {
            if got != want { return viol(format!("predefined value: {}", what), format!("{:#x}, documented {:#x}", got, want)); }
            c.count("predefined values", 1);
        }
        Ok(())
    });
    x.section("request frames", "poll requests of all 65536 class/id pairs", 256, |c| {
        for id in 0..=255u8 {
            let b = UbxPacketRequest::request_for_unknown(c.idx as u8, id).into_packet_bytes();
            if b[..] != frame(c.idx as u8, id, &[])[..] { return viol("wrong request frame", format!("{} for {:02x}-{:02x}", hex(&b), c.idx, id)); }
        }
        c.evals(255);
        c.count("request frames", 256);
        c.distinct(c.idx);
        Ok(())
    });
    x.require("frames compared on three outputs", 100_000);
    x.finish()
}
