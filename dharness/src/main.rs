//! C19: execution of generated code for random descriptions, judged against the generator's own model of them.
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/run.rs"]
#[allow(dead_code)]
mod run;
mod model;
use model::*;
use rng::Rng;
use run::*;
use ublox::verif::{Gr, In, Log, Pk, Ser, Val, GROUPS};
use ublox::ParserError;

fn close(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => (x.is_nan() && y.is_nan()) || x == y || ((x - y).abs() <= 1e-15 * x.abs().max(y.abs())),
        (Val::G(x), Val::G(y)) => (x.is_nan() && y.is_nan()) || x == y || ((x - y).abs() <= 5e-7 * x.abs().max(y.abs()) + 1e-44),
        _ => a == b,
    }
}

struct World { groups: Vec<Group>, flat: Vec<(usize, usize)> }

fn pk(w: &World, c: &Case) -> (usize, usize) { w.flat[c.idx as usize % w.flat.len()] }

fn about(p: &Packet) -> String { format!("description:\n{}", p.text) }

fn check_validation(p: &Packet, r: &ublox::verif::Recv, g: &Group, pl: &[u8], c: &Case) -> Result<Verdict, Violation> {
    let want = p.verdict(g, pl);
    let got = c.call("validate", || (r.validate)(pl))?;
    let bad = |what: &str| viol(format!("reader validation: {}", what), format!("payload {} judged {:?}, expected {:?}; {}", hex(pl), got, want, about(p)));
    match (&want, &got) {
        (Verdict::Open, _) => {},
        (Verdict::Ok, Ok(())) => c.count("payloads accepted", 1),
        (Verdict::Ok, Err(_)) => return bad("valid payload rejected"),
        (Verdict::Len(lo, hi), Err(ParserError::InvalidPacketLen { packet, expect, got: n })) => {
            if *packet != p.name || *n != pl.len() || expect < lo || expect > hi { return bad("length error with wrong contents"); }
            c.count("payloads rejected for their length", 1);
        },
        (Verdict::Field(fs), Err(ParserError::InvalidField { packet, field })) => {
            if *packet != p.name || !fs.iter().any(|f| f == field) { return bad("field error names something else"); }
            c.count("payloads rejected for a field", 1);
        },
        (_, Ok(())) => return bad("invalid payload accepted"),
        _ => return bad("wrong kind of error"),
    }
    Ok(want)
}

fn ser_get(m: &Ser) -> Option<&Vec<(Ser, Ser)>> { if let Ser::Map(v) = m { Some(v) } else { None } }

fn readers(w: &World, c: &mut Case) -> Res {
    let (gi, pi) = pk(w, c);
    let (g, p) = (&w.groups[gi], &w.groups[gi].packets[pi]);
    let Some(r) = &GROUPS[gi].packets[pi].recv else { return Ok(()) };
    for _ in 0..8 {
        let pl = p.payload(g, &mut c.rng);
        let v = check_validation(p, r, g, &pl, c)?;
        c.distinct_bytes(&[&[gi as u8, pi as u8][..], &pl].concat());
        if v != Verdict::Ok { continue; }
        let pl = &pl;
        let bytes = c.call("as_bytes", || (r.bytes)(pl))?;
        if bytes != *pl { return viol("as_bytes", format!("payload {}, as_bytes {}; {}", hex(pl), hex(&bytes), about(p))); }
        let got = c.call("getters", || (r.get)(pl))?;
        let mut it = got.iter();
        for f in &p.fields {
            for raw in [false, true] {
                if raw && !f.hasraw { continue; }
                let want = if raw { p.raw(f, pl) } else { p.decode(g, f, pl) };
                let (n, x) = it.next().expect("harness: getters");
                let name = if raw { format!("{}_raw", f.get) } else { f.get.clone() };
                assert!(*n == name, "harness: getter order");
                if !close(&want, x) { return viol(format!("{}getter of a {} field", if raw { "raw " } else { "" }, f.kind()), format!("{}.{}() of payload {} is {:?}, expected {:?}; {}", p.name, name, hex(pl), x, want, about(p))); }
                c.count(if raw { "raw values compared" } else { "values compared" }, 1);
                if !raw { c.seen("kinds of fields read", hash_str(&f.kind())); }
            }
        }
        let (text, parts) = c.call("Debug", || (r.debug)(pl))?;
        let want = if parts.is_empty() { p.name.clone() } else { format!("{} {{ {} }}", p.name, parts.iter().map(|(l, v)| format!("{}: {}", l, v)).collect::<Vec<_>>().join(", ")) };
        if text != want { return viol("Debug text", format!("{:?} instead of {:?}; {}", text, want, about(p))); }
        let (map, parts) = c.call("serialization", || (r.ser)(pl))?;
        let want: Vec<(Ser, Ser)> = parts.into_iter().map(|(l, v)| (Ser::S(l.into()), v)).collect();
        if ser_get(&map) != Some(&want) { return viol("serialized map", format!("{:?} instead of {:?}; {}", map, want, about(p))); }
        c.count("texts and maps compared", 2);
        if c.want_sample() { c.sample(format!("{} payload {} -> {}", p.name, hex(pl), crop(&text, 200))); }
    }
    Ok(())
}

fn fletcher(b: &[u8]) -> [u8; 2] {
    let (mut x, mut y) = (0u8, 0u8);
    for v in b { x = x.wrapping_add(*v); y = y.wrapping_add(x); }
    [x, y]
}

/// The frame must be the header, one of the admissible encodings per field, and the checksum of exactly those bytes.
fn check_frame(g: &Group, p: &Packet, i: &[In], b: &[u8], how: &str) -> Res {
    let bad = |what: String| viol(format!("frame of a builder ({})", how), format!("{}: frame {} from {:?}; {}", what, hex(b), i, about(p)));
    let len: usize = p.size + i.iter().map(|x| if let In::L(l) = x { l.iter().map(|v| v.len()).sum() } else { 0 }).sum::<usize>();
    if b.len() != len + 8 { return bad(format!("length {} instead of {}", b.len(), len + 8)); }
    if b[..6] != [0xb5, 0x62, p.class, p.id, len as u8, (len >> 8) as u8] { return bad("header".into()); }
    let mut o = 6;
    for (f, x) in p.fields.iter().zip(i) {
        let n = if let In::L(l) = x { l.iter().map(|v| v.len()).sum() } else { f.size };
        if let Err(e) = p.encoding_ok(g, f, x, &b[o..o + n]) { return viol(format!("encoding of a {} field ({})", f.kind(), how), format!("{}.{}: {}; frame {} from {:?}; {}", p.name, f.name, e, hex(b), i, about(p))); }
        o += n;
    }
    if fletcher(&b[2..o]) != b[o..o + 2] { return bad("checksum".into()); }
    Ok(())
}

fn builders(w: &World, c: &mut Case) -> Res {
    let (gi, pi) = pk(w, c);
    let (g, p) = (&w.groups[gi], &w.groups[gi].packets[pi]);
    let k: &Pk = &GROUPS[gi].packets[pi];
    for round in 0..6 {
        let i: Vec<In> = p.fields.iter().map(|f| if round == 0 { p.default_input(g, f) } else { p.input(g, f, &mut c.rng) }).collect();
        if let Some(s) = &k.send {
            if s.len != p.size + 8 { return viol("PACKET_LEN", format!("{} for a payload of {}; {}", s.len, p.size, about(p))); }
            let b = c.call("into_packet_bytes", || (s.bytes)(&i))?;
            check_frame(g, p, &i, &b, "into_packet_bytes")?;
            let b2 = c.call("From", || (s.from)(&i))?;
            if b2 != b { return viol("From of a builder differs", format!("{} / {}; {}", hex(&b2), hex(&b), about(p))); }
            let mut log = Log::default();
            let ok = c.call("create_packet", || (s.create)(&i, &mut log))?;
            let b3 = log.writes.concat();
            if !ok || b3 != b { return viol("create_packet differs from into_packet_bytes", format!("{} ({}) / {}; {}", hex(&b3), ok, hex(&b), about(p))); }
            if !log.reserved.is_empty() && (log.late || log.reserved.iter().sum::<usize>() < b.len()) { return viol("create_packet reserves too little or too late", format!("{:?} for {}; {}", log.reserved, b.len(), about(p))); }
            if let (0, Some(d)) = (round, s.default) {
                let b = c.call("Default of the builder", || d())?;
                check_frame(g, p, &i, &b, "Default")?;
                c.count("default builders", 1);
            }
            c.count("frames compared", 3);
            c.distinct_bytes(&b);
            if c.want_sample() { c.sample(format!("{} built from {:?}: {}", p.name, i, hex(&b))); }
            if let (true, Some(r)) = (p.mode == "both", &k.recv) { if !p.fields.iter().any(|f| f.fail) {
                // a frame of the builder is a payload of the reader
                check_validation(p, r, g, &b[6..b.len() - 2], c)?;
            } }
        }
        if let Some(d) = &k.dynamic {
            let b = c.call("into_packet_vec", || (d.vec)(&i))?;
            check_frame(g, p, &i, &b, "into_packet_vec")?;
            let n = *c.rng.pick(&[0usize, 1, 2, 7, 300]);
            let pre = c.rng.bytes(n);
            let e = c.call("extend_to", || (d.extend)(&i, pre.clone()))?;
            if e.len() < pre.len() || e[..pre.len()] != pre[..] || e[pre.len()..] != b[..] { return viol("extend_to differs from into_packet_vec", format!("after {} bytes: {} / {}; {}", pre.len(), hex(&e), hex(&b), about(p))); }
            if let (0, Some(d)) = (round, d.default) {
                let b = c.call("Default of the builder", || d())?;
                check_frame(g, p, &i, &b, "Default")?;
                c.count("default builders", 1);
            }
            c.count("variable frames compared", 2);
            c.distinct_bytes(&b);
        }
    }
    Ok(())
}

fn constants(w: &World, c: &mut Case) -> Res {
    let (gi, pi) = pk(w, c);
    let p = &w.groups[gi].packets[pi];
    let k = &GROUPS[gi].packets[pi];
    let want = (p.class, p.id, if p.fixed { Some(p.size as u16) } else { None }, p.max as u16);
    let got = (k.class, k.id, k.fixed, k.max);
    c.distinct(rng::mix((gi * 1000 + pi) as u64));
    if got != want { return viol("constants of a packet", format!("class, id, fixed, max: {:?} instead of {:?}; {}", got, want, about(p))); }
    Ok(())
}

fn enums(w: &World, c: &mut Case) -> Res {
    let gi = c.idx as usize % w.groups.len();
    let g = &w.groups[gi];
    for (e, k) in g.enums.iter().zip(GROUPS[gi].enums) {
        assert!(e.name == k.name, "harness: enum order");
        let bad = |what: &str, d: String| viol(format!("enumeration: {}", what), format!("{}: {} of enum {:?}", e.name, d, e.variants));
        for x in 0..=255u8 {
            let member = e.name_of(x);
            if let Some(f) = k.from {
                let got = c.call("from", || f(x))?;
                let want = Val::E(member.clone().expect("harness: total"), x);
                if got != want { return bad("from", format!("from({}) is {:?}, expected {:?}", x, got, want)); }
            }
            if let Some(f) = k.is_valid {
                let got = c.call("is_valid", || f(x))?;
                if got != member.is_some() { return bad("is_valid", format!("is_valid({}) is {}", x, got)); }
            }
            let Some(m) = member else { continue };
            if let Some(f) = k.from_unchecked {
                let got = c.call("from_unchecked", || f(x))?;
                if got != Val::E(m.clone(), x) { return bad("from_unchecked", format!("from_unchecked({}) is {:?}", x, got)); }
            }
            if let Some(f) = k.raw {
                let got = c.call("into_raw", || f(x))?;
                if got != x { return bad("into_raw", format!("into_raw of {} is {}", m, got)); }
            }
            let got = c.call("serialize", || (k.ser)(x))?;
            if got != Ser::U(x as u64, 1) { return bad("serialization", format!("{} serialized as {:?}", m, got)); }
            c.count("members of enumerations checked", 1);
        }
        for (n, v) in (k.consts)() {
            let x = e.value_of(n).expect("harness: constant");
            if v != Val::E(n.into(), x) { return bad("constant", format!("{} is {:?}", n, v)); }
        }
        c.distinct(rng::hash_bytes(e.name.as_bytes()));
    }
    Ok(())
}

fn flags(w: &World, c: &mut Case) -> Res {
    let gi = c.idx as usize % w.groups.len();
    let g = &w.groups[gi];
    for (e, k) in g.flags.iter().zip(GROUPS[gi].flags) {
        assert!(e.name == k.name, "harness: flags order");
        let mask = if e.bits == 32 { u32::MAX } else { (1u32 << e.bits) - 1 };
        let bad = |what: &str, d: String| viol(format!("flag set: {}", what), format!("{} ({} bits, {:?}): {}", e.name, e.bits, e.consts, d));
        if k.all != mask { return bad("all", format!("{:#x}", k.all)); }
        for (n, v) in (k.consts)() {
            let b = e.bit_of(n).expect("harness: flag");
            if v != 1 << b { return bad("constant", format!("{} is {:#x}", n, v)); }
        }
        for j in 0..40 {
            let x = if j < 32 { (1u32 << j) & mask } else { c.rng.corner(32) as u32 & mask };
            for (n, f) in [("from", k.from), ("into_raw", k.raw)] {
                if let Some(f) = f {
                    let got = c.call(n, || f(x))?;
                    if got != x { return bad(n, format!("{:#x} becomes {:#x}", x, got)); }
                }
            }
            let got = c.call("serialize", || (k.ser)(x))?;
            if got != Ser::U(x as u64, e.bits as u8 / 8) { return bad("serialization", format!("{:#x} serialized as {:?}", x, got)); }
            c.count("flag values checked", 1);
            c.distinct(rng::mix(x as u64 ^ rng::hash_bytes(e.name.as_bytes())));
        }
    }
    Ok(())
}

fn dispatch(w: &World, c: &mut Case) -> Res {
    let gi = c.idx as usize % w.groups.len();
    let g = &w.groups[gi];
    let k: &Gr = &GROUPS[gi];
    let order: Vec<&Packet> = g.order.iter().map(|n| g.packets.iter().find(|p| p.name == *n).expect("harness: order")).collect();
    let max = order.iter().map(|p| p.max).max().unwrap();
    if k.max as usize != max { return viol("dispatch: longest payload", format!("{} instead of {} for {:?}", k.max, max, g.order)); }
    for _ in 0..24 {
        let q = order[c.rng.below(order.len())];
        let mut pair = (q.class, q.id);
        if c.rng.chance(1, 12) { let r = order[c.rng.below(order.len())]; pair = (q.class, r.id); }
        if c.rng.chance(1, 20) { pair = (c.rng.u8(), c.rng.u8()); }
        if c.rng.chance(1, 20) { pair = (pair.1, pair.0); }
        let pl = q.payload(g, &mut c.rng);
        let mut want: Option<Option<&Packet>> = Some(None);
        for p in order.iter().filter(|p| (p.class, p.id) == pair) {
            match p.verdict(g, &pl) { Verdict::Ok => { want = Some(Some(p)); break; }, Verdict::Open => { want = None; break; }, _ => {} }
        }
        let Some(want) = want else { continue };
        let got = c.call("match_packet", || (k.parse)(pair.0, pair.1, &pl))?;
        let ctx = || format!("class {:#x} id {:#x} payload {} in {:?}", pair.0, pair.1, hex(&pl), g.order);
        let got = match got { Ok(h) => h, Err(e) => return viol("dispatch: error", format!("{:?}; {}", e, ctx())) };
        let name = want.map(|p| p.name.clone()).unwrap_or_default();
        if got.variant != name { return viol("dispatch: wrong variant", format!("{:?} instead of {:?}; {}", got.variant, name, ctx())); }
        if got.pair != pair { return viol("dispatch: class_and_msg_id", format!("{:?}; {}", got.pair, ctx())); }
        if got.bytes != pl { return viol("dispatch: payload", format!("{}; {}", hex(&got.bytes), ctx())); }
        let text = format!("{}({})", want.map(|p| p.name.as_str()).unwrap_or("Unknown"), got.inner_debug);
        if got.debug != text { return viol("dispatch: Debug", format!("{:?} instead of {:?}; {}", got.debug, text, ctx())); }
        if let Some(p) = want {
            let (own, _) = c.call("serialization", || (k.packets.iter().find(|x| x.name == p.name).unwrap().recv.as_ref().unwrap().ser)(&pl))?;
            let mut m = vec![(Ser::S("class".into()), Ser::U(pair.0 as u64, 1)), (Ser::S("msg_id".into()), Ser::U(pair.1 as u64, 1))];
            m.extend(ser_get(&own).cloned().unwrap_or_default());
            if ser_get(&got.ser) != Some(&m) { return viol("dispatch: serialized map", format!("{:?} instead of {:?}; {}", got.ser, m, ctx())); }
            c.count("payloads dispatched to a packet", 1);
            if order.iter().filter(|x| (x.class, x.id) == pair).count() > 1 { c.count("payloads dispatched among several packets of one class and id", 1); }
        } else { c.count("payloads unknown to the dispatch", 1); }
        c.distinct_bytes(&[&[gi as u8, pair.0, pair.1][..], &pl].concat());
    }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C19");
    let w = World::load(&std::env::var("DESC_MODEL").expect("harness: DESC_MODEL"));
    assert!(w.groups.len() == GROUPS.len(), "harness: model and program differ");
    for (g, k) in w.groups.iter().zip(GROUPS) {
        assert!(g.packets.len() == k.packets.len() && g.packets.iter().zip(k.packets).all(|(a, b)| a.name == b.name), "harness: model and program differ");
    }
    let np = w.flat.len() as u64;
    let ng = w.groups.len() as u64;
    x.count("packet descriptions", np);
    x.count("enumeration descriptions", w.groups.iter().map(|g| g.enums.len() as u64).sum());
    x.count("flag set descriptions", w.groups.iter().map(|g| g.flags.len() as u64).sum());
    x.count("dispatch descriptions", ng);
    x.count("fields described", w.groups.iter().flat_map(|g| g.packets.iter()).map(|p| p.fields.len() as u64).sum());
    let (a, b) = (x.n(60, 200), x.n(40, 120));
    let w = &w;
    x.section("constants", "class, id and lengths of each described packet", np, |c| constants(w, c));
    x.section("readers", "payloads valid, of wrong length, with invalid checked fields, for each description; non-trivial: distinct payload per packet", np * a, |c| readers(w, c));
    x.section("builders", "inputs from corners and at random, defaults first; distinct frames", np * b, |c| builders(w, c));
    x.section("enumerations", "all 256 values of each enumeration", ng, |c| enums(w, c));
    x.section("flag_sets", "single bits and random values of each flag set", ng * 4, |c| flags(w, c));
    x.section("dispatch", "payloads of the packets of a group under their own, shared, swapped and foreign class and id", ng * x.n(400, 1500), |c| dispatch(w, c));
    x.require("values compared", 10_000);
    x.require("payloads rejected for their length", 500);
    x.require("payloads rejected for a field", 500);
    x.require("frames compared", 1000);
    x.require("variable frames compared", 100);
    x.require("payloads dispatched among several packets of one class and id", 100);
    x.require("payloads unknown to the dispatch", 100);
    x.assumptions.push("descriptions are those the generator of tools/descgen.py makes; forms it leaves out are listed in DESIGN.md".into());
    x.finish()
}
fn hash_str(s: &str) -> u64 { rng::hash_bytes(s.as_bytes()) }
fn _unused(_: &mut Rng) {}
