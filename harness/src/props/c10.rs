//! C10: output faults are reported and nothing but a prefix was written.
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use serde::Serialize;
use std::cell::RefCell;
use std::error::Error as _;
use std::fmt;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "fault_enumeration",
        rule: "random untyped and typed values; a fault at every byte offset of the output (all offsets up to 600 bytes, else buffer boundaries and a random sample), as custom error, OS error, bare kind, zero-length write, one-time error, panic; short-write and interruption patterns; serializer objects writing several documents with faults, flushes and unwrapping; non-trivial = distinct (output, offset, fault)",
        assumptions: &["after serialization has returned an error the serializer is only dropped", "the writer follows the io::Write contract (never reports more bytes than offered)"],
        subs: vec![random("offsets", 5, offsets), random("patterns", 2, patterns), random("history", 4, history), random("large", 2, large), random("boundaries", 4, boundaries)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

#[derive(Debug)]
struct Payload(u32);
#[derive(Debug)]
struct Inner(u32);
impl fmt::Display for Inner {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "inner cause {}", self.0)
    }
}
impl std::error::Error for Inner {}
impl fmt::Display for Payload {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "writer payload {} \"q\" \u{e9}", self.0)
    }
}
impl std::error::Error for Payload {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        thread_local!(static I: &'static Inner = Box::leak(Box::new(Inner(7))));
        let _ = self.0;
        Some(I.with(|i| *i))
    }
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::Other,
];

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Fault {
    Custom(usize, u32),
    Os(i32),
    Kind(usize),
    Zero,
    Panic,
    Never,
}
impl Fault {
    fn err(self) -> io::Error {
        match self {
            Fault::Custom(k, n) => io::Error::new(KINDS[k], Payload(n)),
            Fault::Os(n) => io::Error::from_raw_os_error(n),
            Fault::Kind(k) => io::Error::from(KINDS[k]),
            _ => unreachable!(),
        }
    }
    /// The error as the caller must see it.
    fn expect(self) -> (String, Option<String>) {
        match self {
            Fault::Zero => ("failed to write whole buffer".into(), None),
            f => {
                let e = f.err();
                (e.to_string(), e.source().map(|s| s.to_string()))
            }
        }
    }
}
fn gen_fault(r: &mut Rng) -> Fault {
    match r.below(8) {
        0..=2 => Fault::Custom(r.below(KINDS.len()), r.below(1000) as u32),
        3 | 4 => Fault::Os(*r.pick(&[28, 5, 32, 9, 27, 11, 12])),
        5 => Fault::Kind(r.below(KINDS.len())),
        6 => Fault::Zero,
        _ => Fault::Panic,
    }
}

#[derive(Default)]
struct Log {
    got: Vec<u8>,
    writes: u64,
    faults: u64,
    flushes: u64,
    flush_faults: u64,
    after_fault: u64,
}
struct W {
    log: Rc<RefCell<Log>>,
    at: usize,
    fault: Fault,
    once: bool,
    /// bytes accepted per call, cyclic; 0 = interrupted
    pattern: Vec<usize>,
    turn: usize,
    flush_fault: Option<Fault>,
    id: u64,
}
impl W {
    fn new(log: &Rc<RefCell<Log>>, at: usize, fault: Fault) -> W {
        W { log: log.clone(), at, fault, once: false, pattern: vec![], turn: 0, flush_fault: None, id: 0 }
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.writes += 1;
        if l.faults > 0 {
            l.after_fault += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if !self.pattern.is_empty() {
            let p = self.pattern[self.turn % self.pattern.len()];
            self.turn += 1;
            if p == 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            n = n.min(p);
        }
        if self.fault != Fault::Never && !(self.once && l.faults > 0) {
            let left = self.at.saturating_sub(l.got.len());
            if left == 0 {
                l.faults += 1;
                match self.fault {
                    Fault::Zero => return Ok(0),
                    Fault::Panic => {
                        drop(l);
                        panic!("writer panic")
                    }
                    f => return Err(f.err()),
                }
            }
            n = n.min(left);
        }
        l.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut l = self.log.borrow_mut();
        l.flushes += 1;
        match self.flush_fault {
            Some(f) => {
                l.flush_faults += 1;
                Err(f.err())
            }
            None => Ok(()),
        }
    }
}

/// A value of any kind with one way to serialize it.
enum V {
    U(serde_yaml::Value),
    T(Ty, TV, u8),
    /// padding, then the same value many times over
    P(usize, Ty, TV, u8, usize),
}
impl Serialize for V {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::U(v) => v.serialize(s),
            V::T(ty, tv, mode) => dynv(ty, tv, *mode).serialize(s),
            V::P(pad, ty, tv, mode, n) => {
                use serde::ser::SerializeSeq;
                let mut q = s.serialize_seq(None)?;
                q.serialize_element(&"p".repeat(*pad))?;
                for _ in 0..*n {
                    q.serialize_element(&dynv(ty, tv, *mode))?;
                }
                q.end()
            }
        }
    }
}
fn gen_v(r: &mut Rng) -> V {
    if r.chance(3, 5) {
        V::U(to_val(&gen_m(r, &GenCfg::default())))
    } else {
        let cfg = TyCfg { single: r.chance(1, 4), ..TyCfg::default() };
        let d = r.range(1, 4);
        let ty = gen_ty(r, &cfg, d);
        let mut fuel = r.range(3, 40);
        let tv = gen_tv(r, &ty, &cfg, &mut fuel);
        V::T(ty, tv, r.below(32) as u8)
    }
}
fn healthy(v: &V) -> Option<Vec<u8>> {
    let s = serde_yaml::to_string(v).ok()?;
    Some(s.into_bytes())
}
fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 600 {
        format!("{} bytes ending {:?}", b.len(), s.chars().rev().take(80).collect::<Vec<_>>().into_iter().rev().collect::<String>())
    } else {
        format!("{s:?}")
    }
}

fn judge_error(e: &serde_yaml::Error, f: Fault, ctx: &dyn Fn() -> String) -> R {
    let (msg, src) = f.expect();
    ensure!(e.to_string() == msg, "error-message", "the writer failed with {msg:?}, serialization reports {:?}\n{}", e.to_string(), ctx());
    let got = e.source().map(|s| s.to_string());
    ensure!(got == src, "error-source", "the writer's error has source {src:?}, the reported error {got:?}\n{}", ctx());
    ensure!(e.location().is_none(), "error-location", "an I/O error has a location {:?}\n{}", e.location(), ctx());
    ensure!(format!("{e:?}").contains("Error("), "error-debug", "unexpected debug form {e:?}");
    Ok(())
}

/// One write with a fault at `k`: must fail with that fault, prefix written.
fn one(c: &mut Case, v: &V, h: &[u8], k: usize, f: Fault) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut w = W::new(&log, k, f);
    w.once = c.rng.bool();
    if c.rng.chance(1, 3) {
        w.pattern = (0..c.rng.range(1, 4)).map(|_| c.rng.range(0, 9)).collect();
        if w.pattern.iter().all(|x| *x == 0) {
            w.pattern.push(3);
        }
    }
    let (once, pat) = (w.once, w.pattern.clone());
    let by = c.rng.below(3);
    let ctx = || format!("fault {f:?} at byte {k} of {} (one time: {once}, pattern {pat:?}, way {by}), output {}", h.len(), show(h));
    let r = catch_unwind(AssertUnwindSafe(|| match by {
        0 => serde_yaml::to_writer(&mut w, v),
        1 => serde_yaml::to_writer(w, v),
        _ => {
            let mut s = serde_yaml::Serializer::new(w);
            v.serialize(&mut s)
        }
    }));
    let l = log.borrow();
    match r {
        Err(_) => {
            let p = last_panic();
            ensure!(f == Fault::Panic && p.starts_with("writer panic"), "panic", "panicked: {p}\n{}", ctx());
            c.ev("writer panics passed on");
        }
        Ok(Ok(())) => return fail("fault-lost", format!("serialization reported success although the writer failed; it received {}\n{}", show(&l.got), ctx())),
        Ok(Err(e)) => {
            ensure!(f != Fault::Panic, "panic-lost", "the writer panicked, serialization reports {e}\n{}", ctx());
            judge_error(&e, f, &ctx)?;
            c.ev("faults reported");
        }
    }
    ensure!(h.starts_with(&l.got), "not-prefix", "the bytes accepted are not a prefix: {}\n{}", show(&l.got), ctx());
    ensure!(l.got.len() == k, "wrong-offset", "the writer accepted {} bytes before its fault at {k}\n{}", l.got.len(), ctx());
    ensure!(l.after_fault == 0, "written-after-fault", "the writer was called {} times after its fault\n{}", l.after_fault, ctx());
    c.nontrivial(&(h, k, f));
    Ok(())
}

fn offsets(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let v = gen_v(&mut r);
    c.rng = r;
    let Some(h) = healthy(&v) else { return Ok(()) };
    check_healthy(c, &v, &h)?;
    let ks: Vec<usize> = if h.len() <= 600 { (0..h.len()).collect() } else { (0..200).map(|_| c.rng.below(h.len())).chain([0, h.len() - 1]).collect() };
    let base = gen_fault(&mut c.rng);
    for k in ks {
        let f = if c.rng.bool() { base } else { gen_fault(&mut c.rng) };
        one(c, &v, &h, k, f)?;
    }
    c.ev("outputs with every offset faulted");
    c.sample(|| show(&h));
    Ok(())
}

/// A writer that never fails receives everything, and once.
fn check_healthy(c: &mut Case, v: &V, h: &[u8]) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut w = W::new(&log, h.len(), Fault::Never);
    if let Err(e) = serde_yaml::to_writer(&mut w, v) {
        return fail("healthy-error", format!("to_writer failed on a healthy writer: {e}"));
    }
    ensure!(log.borrow().got == h, "writer-bytes", "to_writer wrote {}, to_string {}", show(&log.borrow().got), show(h));
    // a fault right after the last byte is never met
    let log = Rc::new(RefCell::new(Log::default()));
    let mut w = W::new(&log, h.len(), Fault::Os(28));
    let r = serde_yaml::to_writer(&mut w, v);
    ensure!(r.is_ok() && log.borrow().faults == 0, "beyond-end", "a writer with room for exactly the output was asked for more");
    c.ev("healthy outputs compared");
    Ok(())
}

fn patterns(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let v = gen_v(&mut r);
    let Some(h) = healthy(&v) else { return Ok(()) };
    for _ in 0..4 {
        let log = Rc::new(RefCell::new(Log::default()));
        let mut w = W::new(&log, 0, Fault::Never);
        w.pattern = match r.below(4) {
            0 => vec![1],
            1 => vec![0, 1],
            2 => vec![0, 0, 0, 2],
            _ => (0..r.range(1, 8)).map(|_| r.range(0, 20)).chain([1]).collect(),
        };
        let pat = w.pattern.clone();
        if let Err(e) = serde_yaml::to_writer(&mut w, &v) {
            return fail("short-write", format!("a short-writing writer ({pat:?}) made serialization fail: {e}"));
        }
        ensure!(log.borrow().got == h, "short-bytes", "with write pattern {pat:?} the writer received {}, to_string gives {}", show(&log.borrow().got), show(&h));
        c.evn("short writes", log.borrow().writes);
        c.nontrivial(&(&h, &pat));
    }
    c.rng = r;
    Ok(())
}

/// Outputs beyond the emitter's buffer.
fn large(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let n = r.range(15000, 70000);
    let v = match r.below(4) {
        0 => V::U(to_val(&M::S("x".repeat(n)))),
        1 => V::U(to_val(&M::S(format!("{}\n{}\u{e9}", "line\n".repeat(n / 5), "\u{1f600}".repeat(n / 8))))),
        2 => V::U(to_val(&M::Seq((0..n / 8).map(|i| M::Int(i as i128)).collect()))),
        _ => {
            let mut m = vec![];
            let mut size = 0;
            while size < n {
                let x = gen_m(&mut r, &GenCfg::default());
                size += serde_yaml::to_string(&to_val(&x)).map(|s| s.len()).unwrap_or(0) + 8;
                m.push(x);
            }
            V::U(to_val(&M::Seq(m)))
        }
    };
    c.rng = r;
    let Some(h) = healthy(&v) else { return Ok(()) };
    ensure!(h.len() > 10000, "large-small", "large output expected");
    check_healthy(c, &v, &h)?;
    let mut ks = vec![0, 1, h.len() - 1, h.len() - 2];
    let mut b = 16384usize;
    while b < h.len() + 40 {
        for d in 0..24usize {
            ks.push((b + 4).saturating_sub(d));
        }
        b += 16384;
    }
    for _ in 0..30 {
        ks.push(c.rng.below(h.len()));
    }
    ks.retain(|k| *k < h.len());
    ks.sort();
    ks.dedup();
    let max = if c.thorough { ks.len() } else { 30 };
    for _ in 0..max.min(ks.len()) {
        let i = c.rng.below(ks.len());
        let k = ks.swap_remove(i);
        let f = gen_fault(&mut c.rng);
        one(c, &v, &h, k, f)?;
    }
    c.ev("outputs beyond one buffer");
    Ok(())
}

/// The emitter hands its buffer over when it is full: let every kind of event be
/// the one that meets the fault there.
fn boundaries(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let cfg = TyCfg { any: false, enums: 8, single: r.chance(1, 8), ..TyCfg::default() };
    let d = r.range(1, 4);
    let mut ty = gen_ty(&mut r, &cfg, d);
    if r.bool() {
        // one-entry maps of all kinds are decided late
        let key = if r.bool() { gen_enum(&mut r, &cfg, 2) } else { gen_ty(&mut r, &cfg, 2) };
        ty = Ty::Map(Box::new(key), Box::new(ty));
    }
    let mut fuel = r.range(2, 16);
    let mut tv = gen_tv(&mut r, &ty, &cfg, &mut fuel);
    if let TV::Map(es) = &mut tv {
        if r.chance(2, 3) {
            es.truncate(1);
        }
    }
    // small collections in one another: what starts each of them is written late
    for _ in 0..*r.pick(&[0, 0, 1, 2, 3, 4]) {
        (ty, tv) = match r.below(7) {
            5 if matches!(ty, Ty::Map(..) | Ty::Seq(_) | Ty::Struct(..)) => (Ty::Enum("E", &["A"], vec![VTy::New(ty)]), TV::Var(0, Box::new(tv))),
            0 | 1 => (Ty::Seq(Box::new(ty)), TV::Seq(vec![tv])),
            2 | 3 => (Ty::Map(Box::new(Ty::Str), Box::new(ty)), TV::Map(vec![(TV::S("k".into()), tv)])),
            _ => (Ty::Struct("S", &["f"], vec![ty]), TV::Fields(vec![tv])),
        };
    }
    let mode = r.below(32) as u8;
    c.rng = r;
    let Some(unit) = healthy(&V::T(ty.clone(), tv.clone(), mode)) else { return Ok(()) };
    let n = 16800 / (unit.len() + 2) + 2;
    if unit.len() > 4000 {
        return Ok(());
    }
    for _ in 0..if c.thorough { 20 } else { 8 } {
        let pad = c.rng.range(1, unit.len() * 2 + 4);
        let v = V::P(pad, ty.clone(), tv.clone(), mode, n);
        let Some(h) = healthy(&v) else { return Ok(()) };
        let f = loop {
            match gen_fault(&mut c.rng) {
                Fault::Panic => continue,
                f => break f,
            }
        };
        let k = c.rng.below(16384.min(h.len()));
        one(c, &v, &h, k, f)?;
        c.ev("first hand-overs that failed");
    }
    Ok(())
}

/// Several documents through one serializer.
fn history(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = r.range(1, 4);
    let docs: Vec<V> = (0..n).map(|_| gen_v(r)).collect();
    if docs.iter().any(|d| healthy(d).is_none()) {
        return Ok(());
    }
    // healthy run: where each document ends
    let log = Rc::new(RefCell::new(Log::default()));
    let id = r.next();
    let mut w = W::new(&log, 0, Fault::Never);
    w.id = id;
    let flush_fault = if r.chance(1, 4) { Some(Fault::Custom(r.below(KINDS.len()), 5)) } else { None };
    let mut s = serde_yaml::Serializer::new(w);
    let mut ends = vec![];
    let mut flushes = 0;
    for (i, d) in docs.iter().enumerate() {
        if let Err(e) = d.serialize(&mut s) {
            return fail("history-error", format!("document {i} failed on a healthy writer: {e}"));
        }
        let now = log.borrow().got.len();
        ends.push(now);
        if r.bool() {
            if let Err(e) = s.flush() {
                return fail("flush-error", format!("flush failed on a healthy writer: {e}"));
            }
            ensure!(log.borrow().got.len() == now, "late-bytes", "document {i} was reported written, but flushing handed over {} more bytes", log.borrow().got.len() - now);
            ensure!(log.borrow().flushes > flushes, "flush-not-called", "Serializer::flush did not call the writer's flush");
            flushes = log.borrow().flushes;
            c.ev("flushes checked");
        }
    }
    let all = log.borrow().got.clone();
    // each document's own bytes are there at the time of success
    let mut at = 0;
    for (i, d) in docs.iter().enumerate() {
        let h = healthy(d).unwrap();
        let part = &all[at..ends[i]];
        ensure!(part.ends_with(&h) || part.strip_suffix(b"...\n").is_some_and(|p| p.ends_with(&h)), "document-bytes", "when document {i} was reported written the writer had {} for it, to_string gives {}", show(part), show(&h));
        let lead = &part[..part.len() - h.len().min(part.len())];
        ensure!(i == 0 && lead.is_empty() || i > 0 && (lead == b"---\n" || lead == b"--- " || lead == b"...\n---\n" || lead == b"...\n--- "|| lead == b"---"), "document-lead", "document {i} is preceded by {}", show(lead));
        at = ends[i];
    }
    match s.into_inner() {
        Err(e) => return fail("into-inner", format!("into_inner failed on a healthy writer: {e}")),
        Ok(w) => {
            ensure!(w.id == id && Rc::ptr_eq(&w.log, &log), "other-writer", "into_inner returned another writer");
            let tail = log.borrow().got[all.len()..].to_vec();
            ensure!(tail.is_empty() || tail == b"...\n", "tail", "unwrapping handed over {} after everything was written", show(&tail));
            c.ev("writers unwrapped");
        }
    }
    c.nontrivial(&all);
    c.sample(|| show(&all));
    // flush faults
    if let Some(ff) = flush_fault {
        let log = Rc::new(RefCell::new(Log::default()));
        let mut w = W::new(&log, 0, Fault::Never);
        w.flush_fault = Some(ff);
        let mut s = serde_yaml::Serializer::new(w);
        for d in &docs {
            if let Err(e) = d.serialize(&mut s) {
                // a flush that fails while a document is written may surface there
                judge_error(&e, ff, &|| "flush fault".to_string())?;
                return Ok(());
            }
        }
        let r = s.flush();
        match r {
            Ok(()) => return fail("flush-fault-lost", "the writer's flush failed, Serializer::flush reports success".to_string()),
            Err(e) => judge_error(&e, ff, &|| format!("flush fault {ff:?}"))?,
        }
        match s.into_inner() {
            Ok(w) => ensure!(w.log.borrow().got.starts_with(&all), "unwrap-incomplete", "unwrapped writer holds {} of {}", show(&w.log.borrow().got), show(&all)),
            Err(e) => judge_error(&e, ff, &|| format!("unwrap after flush fault {ff:?}"))?,
        }
        ensure!(log.borrow().got.starts_with(&all), "flush-fault-bytes", "the writer received {}, expected {}", show(&log.borrow().got), show(&all));
        c.ev("flush faults reported");
    }
    // a fault at a random set of offsets: exactly the document it falls in fails
    let total = all.len();
    let tries = if total <= 120 { total } else { 60 };
    for t in 0..tries {
        let k = if total <= 120 { t } else { r.below(total) };
        let f = loop {
            let f = gen_fault(r);
            if f != Fault::Panic {
                break f;
            }
        };
        let log = Rc::new(RefCell::new(Log::default()));
        let mut w = W::new(&log, k, f);
        w.once = r.bool();
        let mut s = serde_yaml::Serializer::new(w);
        let ctx = || format!("fault {f:?} at byte {k} of {}; documents end at {ends:?}", show(&all));
        let mut failed = None;
        for (i, d) in docs.iter().enumerate() {
            match d.serialize(&mut s) {
                Ok(()) => ensure!(log.borrow().got == all[..ends[i]], "success-bytes", "document {i} was reported written, the writer holds {}\n{}", show(&log.borrow().got), ctx()),
                Err(e) => {
                    judge_error(&e, f, &ctx)?;
                    failed = Some(i);
                    break;
                }
            }
        }
        let want = ends.iter().position(|e| *e > k);
        ensure!(failed == want, "failing-document", "document {failed:?} failed, expected {want:?}\n{}", ctx());
        let before = log.borrow().got.len();
        drop(s);
        ensure!(log.borrow().got.len() == before, "written-on-drop", "dropping the failed serializer wrote more\n{}", ctx());
        ensure!(log.borrow().got == all[..k], "not-prefix", "the bytes accepted are not the first {k}: {}\n{}", show(&log.borrow().got), ctx());
        c.ev("multi-document faults");
    }
    // a fault in the end of stream marker, if there is one
    Ok(())
}
