//! C17: writer failures surface; what was accepted is always a prefix of the right frame.
use ublox::*;
use vh::build::*;
use vh::gen_build;
use vh::model::*;
use vh::rng::*;
use vh::run::*;
use vh::spec::*;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind { NotEnoughMem, Custom(u64) }
#[derive(Debug, Clone, Copy, PartialEq)]
enum Fault {
    None,
    /// the k-th call (reservation included) fails, the first `accept` bytes of a write are kept
    Call { k: usize, kind: Kind, accept: usize },
    /// the writer has room for this many bytes: a write that does not fit keeps what fits, then fails
    Budget { bytes: usize, kind: Kind, keep: bool },
    /// a reservation of more than this many bytes fails
    Reserve { most: usize, kind: Kind },
}
/// Records every call and injects the fault.
struct W { fault: Fault, calls: usize, reserved: Vec<usize>, got: Vec<u8>, sizes: Vec<usize>, failed: Option<Kind>, after: usize, before_reserve: usize }
impl W {
    fn new(fault: Fault) -> Self { W { fault, calls: 0, reserved: vec![], got: vec![], sizes: vec![], failed: None, after: 0, before_reserve: 0 } }
    fn fail(&mut self, k: Kind) -> Result<(), MemWriterError<u64>> {
        if self.failed.is_none() { self.failed = Some(k); }
        Err(match k { Kind::NotEnoughMem => MemWriterError::NotEnoughMem, Kind::Custom(x) => MemWriterError::Custom(x) })
    }
    fn enter(&mut self) { if self.failed.is_some() { self.after += 1; } self.calls += 1; }
}
impl MemWriter for W {
    type Error = u64;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<u64>> {
        self.enter();
        self.reserved.push(len);
        match self.fault {
            Fault::Call { k, kind, .. } if k + 1 == self.calls => self.fail(kind),
            Fault::Reserve { most, kind } if len > most => self.fail(kind),
            _ => Ok(()),
        }
    }
    fn write(&mut self, b: &[u8]) -> Result<(), MemWriterError<u64>> {
        self.enter();
        if self.reserved.is_empty() { self.before_reserve += 1; }
        self.sizes.push(b.len());
        match self.fault {
            Fault::Call { k, kind, accept } if k + 1 == self.calls => { let n = accept.min(b.len()); self.got.extend_from_slice(&b[..n]); self.fail(kind) },
            Fault::Budget { bytes, kind, keep } if self.got.len() + b.len() > bytes => { if keep { let n = bytes - self.got.len(); self.got.extend_from_slice(&b[..n]); } self.fail(kind) },
            _ => { self.got.extend_from_slice(b); Ok(()) },
        }
    }
}
fn kind_of(e: MemWriterError<u64>) -> Kind { match e { MemWriterError::NotEnoughMem => Kind::NotEnoughMem, MemWriterError::Custom(x) => Kind::Custom(x) } }

fn run(c: &Case, p: &PacketSpec, inp: &[Inp], frame: &[u8], fault: Fault) -> Result<W, Violation> {
    let mut w = W::new(fault);
    let r = c.call("create_packet", || gen_build::create(p.name, inp, &mut w))?;
    let ctx = |w: &W| format!("{}: fault {:?}, {} calls with write sizes {:?}, {} bytes accepted of {}", p.name, fault, w.calls, w.sizes, w.got.len(), frame.len());
    if w.before_reserve > 0 { return viol(format!("{} writes before reserving", p.name), ctx(&w)); }
    if w.reserved != [frame.len()] { return viol(format!("{} does not reserve exactly the frame length once", p.name), format!("reservations {:?}; {}", w.reserved, ctx(&w))); }
    if !frame.starts_with(&w.got) { return viol(format!("{}: accepted bytes are not a prefix of the frame", p.name), format!("{}; accepted {} frame {}", ctx(&w), hex(&w.got), hex(frame))); }
    if w.after > 0 { return viol(format!("{} goes on after a failure", p.name), format!("{} calls after the failed one; {}", w.after, ctx(&w))); }
    match (r, w.failed) {
        (Ok(()), None) => if w.got != frame { return viol(format!("{}: success without the whole frame", p.name), ctx(&w)); },
        (Ok(()), Some(k)) => return viol(format!("{}: success although the writer failed", p.name), format!("{:?}; {}", k, ctx(&w))),
        (Err(e), Some(k)) => {
            if let Kind::Custom(x) = k { let t = e.to_string(); if !t.contains(&x.to_string()) { return viol("the text of the error does not contain the writer's", format!("{:?} for {}; {}", t, x, ctx(&w))); } }
            let e = kind_of(e); if e != k { return viol(format!("{}: another error than the writer's", p.name), format!("{:?} instead of {:?}; {}", e, k, ctx(&w))); } },
        (Err(e), None) => return viol(format!("{}: an error the writer never reported", p.name), format!("{:?}; {}", kind_of(e), ctx(&w))),
    }
    if w.failed.is_some() { c.count("faults injected and reported", 1); } else { c.count("writes completed", 1); }
    c.count("writer calls recorded", w.calls as u64);
    Ok(w)
}

fn main() {
    let mut x = Ctx::new("C17");
    x.boost = 5;
    x.level = "fault_enumeration".into();
    x.assumptions = vec!["the frame of the same values from the array form (checked against the protocol by the frame-building property)".into()];
    let ps = sendable();
    let k = ps.len() as u64;
    let n = x.n(1_500, 60_000) * k;
    x.section("every fault point", "every sendable packet with random fields; every call of the fault-free run (reservation and each write) fails once with either error kind, with nothing, part or all of the write accepted; every byte budget 0..frame length; too small reservations", n, |c| {
        let p = ps[(c.idx % k) as usize];
        let (inp, _) = gen_inputs(&mut c.rng, p, Scl::Wild);
        let (fr, _, _) = c.call("building the frame", || gen_build::bytes(p.name, &inp))?;
        let pl_len = p.fixed.unwrap();
        if fr.len() != pl_len + 8 || fr != frame(p.class, p.id, &fr[6..6 + pl_len]) { return viol(format!("{} frame is damaged", p.name), hex(&fr)); }
        let ok = run(c, p, &inp, &fr, Fault::None)?;
        let tag = c.rng.u64();
        for i in 0..ok.calls {
            let size = if i == 0 { 0 } else { ok.sizes[i - 1] };
            for a in [0, 1, size / 2, size.saturating_sub(1), size] {
                for kind in [Kind::NotEnoughMem, Kind::Custom(tag ^ i as u64)] {
                    let w = run(c, p, &inp, &fr, Fault::Call { k: i, kind, accept: a })?;
                    if w.failed.is_none() { return viol(format!("{}: the sequence of writer calls changes between runs", p.name), format!("call {} of {} did not happen", i, ok.calls)); }
                    c.evals(1);
                    c.seen("fault points (packet, call, kept)", mix(p.class as u64 | (p.id as u64) << 8 | (i as u64) << 16 | (a as u64) << 32));
                }
            }
        }
        for b in 0..=fr.len() {
            let kind = if c.rng.bool() { Kind::NotEnoughMem } else { Kind::Custom(tag ^ b as u64) };
            run(c, p, &inp, &fr, Fault::Budget { bytes: b, kind, keep: c.idx % 2 == 0 })?;
            c.evals(1);
        }
        for m in [0, 1, fr.len() - 3, fr.len() - 2, fr.len() - 1, fr.len()] {
            let w = run(c, p, &inp, &fr, Fault::Reserve { most: m, kind: Kind::Custom(tag) })?;
            if !w.got.is_empty() && m < fr.len() { return viol(format!("{} writes after a failed reservation", p.name), hex(&w.got)); }
        }
        c.distinct_bytes(&fr);
        if c.want_sample() { c.sample(format!("{}: {} calls, write sizes {:?}, frame {}", p.name, ok.calls, ok.sizes, crop(&hex(&fr), 120))); }
        Ok(())
    });
    let n = x.n(600, 20_000) * k;
    x.section("vector writer", "writing to a filled vector appends exactly the frame", n, |c| {
        let p = ps[(c.idx % k) as usize];
        let (inp, _) = gen_inputs(&mut c.rng, p, Scl::Wild);
        let (fr, _, _) = c.call("building the frame", || gen_build::bytes(p.name, &inp))?;
        let m = c.rng.below(50);
        let pre = c.rng.bytes(m);
        let mut v = pre.clone();
        let r = c.call("create_packet", || gen_build::create(p.name, &inp, &mut v))?;
        if let Err(e) = r { return viol(format!("{}: writing to a vector fails", p.name), format!("{:?}", e)); }
        if v[..m.min(v.len())] != pre[..] || v[m..] != fr[..] { return viol(format!("{}: a vector does not get exactly the frame", p.name), format!("{} expected {}", hex(&v[m..]), hex(&fr))); }
        c.count("vector writes", 1);
        c.distinct_bytes(&fr);
        Ok(())
    });
    x.require("faults injected and reported", 50_000);
    x.require("writes completed", 2_000);
    x.finish()
}
