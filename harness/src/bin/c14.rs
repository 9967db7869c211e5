//! C14: configuration key/values encode and decode losslessly.
use ublox::cfg_val::CfgVal;
use ublox::*;
use vh::cfgv::*;
use vh::gen_cfg::*;
use vh::rng::*;
use vh::run::*;

fn one(c: &mut Case, k: usize, v: u64) -> Res {
    let key = &KEYS[k];
    let e = encode(key, v);
    let val = make(k, v);
    let at = || format!("{} (key {:#010x}) = {}", key.name, key.key, v);
    let (n, empty) = c.call("CfgVal::len", || (val.len(), val.is_empty()))?;
    if n != e.len() || empty { return viol(format!("{}: wrong reported length", key.name), format!("{}: len {} is_empty {}, expected {}", at(), n, empty, e.len())); }
    // into an exactly fitting slice, and into a larger one
    for extra in [0usize, 1, 9] {
        let g = c.rng.u8();
        let mut buf = vec![g; e.len() + extra];
        let w = c.call("CfgVal::write_to", || val.write_to(&mut buf))?;
        if w != e.len() { return viol(format!("{}: write_to reports a wrong length", key.name), format!("{}: {} expected {}", at(), w, e.len())); }
        if buf[..w] != e[..] { return viol(format!("{}: wrong encoding", key.name), format!("{}: {} expected {}", at(), hex(&buf[..w]), hex(&e))); }
        if buf[w..].iter().any(|b| *b != g) { return viol(format!("{}: write_to touches bytes behind the item", key.name), format!("{}: {}", at(), hex(&buf))); }
    }
    let m = c.rng.below(5);
    let pre = c.rng.bytes(m);
    let mut out = pre.clone();
    let w = c.call("CfgVal::extend_to", || val.extend_to(&mut out))?;
    if w != e.len() || out[..m] != pre[..] || out[m..] != e[..] { return viol(format!("{}: extend_to differs", key.name), format!("{}: reports {}, container {} expected {} after {} bytes", at(), w, hex(&out), hex(&e), m)); }
    // decoding, with arbitrary bytes behind
    let mut wire = e.clone();
    let t = c.rng.below(6);
    wire.extend(c.rng.bytes(t));
    let d = c.call("CfgVal::parse", || CfgVal::parse(&wire)).or_else(|x| viol(format!("{}: decoding panics", key.name), format!("{}: {}", at(), x.detail)))?;
    if unmake(&d) != (k, v) { return viol(format!("{}: does not decode to itself", key.name), format!("{}: {} decodes to {:?}", at(), hex(&wire), d)); }
    if format!("{:?}", d) != format!("{:?}", val) { return viol(format!("{}: decoded item differs", key.name), format!("{:?} {:?}", d, val)); }
    c.count("items encoded and decoded", 1);
    c.seen("keys", key.key as u64);
    c.distinct(mix(v) ^ key.key as u64);
    if c.want_sample() { c.sample(format!("{} -> {}", at(), hex(&e))); }
    Ok(())
}
fn list(c: &mut Case, kv: &[(usize, u64)]) -> Res {
    let vals: Vec<CfgVal> = kv.iter().map(|(k, v)| make(*k, *v)).collect();
    let total: usize = kv.iter().map(|(k, _)| 4 + storage(KEYS[*k].key)).sum();
    let exp: Vec<u8> = kv.iter().flat_map(|(k, v)| encode(&KEYS[*k], *v)).collect();
    let extra = c.rng.below(20);
    let g = c.rng.u8();
    let mut buf = vec![g; total + extra];
    let mut rng = c.rng.clone();
    let r: Result<Result<Vec<(usize, u64)>, String>, Violation> = c.call("CfgValIter", || {
        let mut it = CfgValIter::new(&mut buf, &vals);
        let (copy, start) = (it.clone(), it.clone());
        let mut got = vec![];
        for _ in 0..kv.len() + 5 { match it.next() { Some(x) => got.push(unmake(&x)), None => break } }
        for _ in 0..3 { if it.next().is_some() { return Err("the iterator goes on after its end".into()); } }
        let again: Vec<(usize, u64)> = copy.take(kv.len() + 5).map(|x| unmake(&x)).collect();
        if again != got { return Err("a clone of the iterator yields something else".into()); }
        // next, nth, count, last, skip, ... in random order on several copies, against the plain walk
        vh::obs::walk(&mut rng, || start.clone(), |x| unmake(&x))?;
        Ok(got)
    });
    match r? { Err(e) => return viol("configuration iterator", e), Ok(got) => if got != kv { return viol("the iterator does not yield the items in order", format!("{:?} expected {:?}", got, kv)); } }
    if buf[..total] != exp[..] || buf[total..].iter().any(|b| *b != g) { return viol("CfgValIter::new writes something else than the items", format!("{} expected {}", hex(&buf), hex(&exp))); }
    c.count("lists iterated", 1);
    c.count("items iterated", kv.len() as u64);
    c.distinct_bytes(&exp);
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C14");
    x.boost = 20;
    x.assumptions = vec!["keys, value types and their protocol meaning frozen in spec/cfgval.json; decoding of bytes that are no item is outside the property (no received packet is decoded this way)".into()];
    let k = KEYS.len() as u64;
    x.count("known items", k);
    x.section("all values of small types", "every item with all values of its type (8-bit: all 256, enumerations: all members)", k * 256, |c| {
        let key = &KEYS[(c.idx % k) as usize];
        let i = c.idx / k;
        let card = match cardinality(key.ty) { 0 if key.ty == VTy::CfgInfMask => 32, 0 if storage(key.key) == 1 => 256, 0 => 32, n => n };
        if i >= card { return Ok(()); }
        let v = if storage(key.key) == 1 { i } else { gen_val(&mut c.rng, key) };
        one(c, (c.idx % k) as usize, v)
    });
    let per = x.n(100, 20_000);
    x.section("wide values", "every item with corner and random values", k * per, |c| { let i = (c.idx % k) as usize; let v = gen_val(&mut c.rng, &KEYS[i]); one(c, i, v) });
    let wide: Vec<usize> = (0..KEYS.len()).filter(|i| storage(KEYS[*i].key) == 2).collect();
    x.section("all 16-bit values", "every 16-bit item with all 65536 values (quick: every 16th)", 65536 / if x.thorough { 1 } else { 16 }, |c| {
        let v = if c.thorough { c.idx } else { c.idx * 16 + c.rng.below(16) as u64 };
        for i in &wide { one(c, *i, v)?; }
        c.evals(wide.len() as u64 - 1);
        Ok(())
    });
    let n = x.n(20_000, 1_000_000);
    x.section("concatenations", "lists of 0..40 items of all kinds, iterated", n, |c| {
        let m = match c.rng.below(6) { 0 => 0, 1 => 1, _ => c.rng.below(41) };
        let kv: Vec<(usize, u64)> = (0..m).map(|_| { let i = c.rng.below(KEYS.len()); (i, gen_val(&mut c.rng, &KEYS[i])) }).collect();
        list(c, &kv)
    });
    x.section("all items at once", "every item once, in random orders", x.n(20, 500), |c| {
        let mut o: Vec<usize> = (0..KEYS.len()).collect();
        c.rng.shuffle(&mut o);
        let kv: Vec<(usize, u64)> = o.into_iter().map(|i| (i, gen_val(&mut c.rng, &KEYS[i]))).collect();
        list(c, &kv)
    });
    x.require("items encoded and decoded", 50_000);
    x.require("items iterated", 100_000);
    x.finish()
}
