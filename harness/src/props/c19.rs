//! C19: no memory errors or leaks in any use of the library.
//!
//! Every workload runs twice (with different patterns in fresh memory) between
//! two readings of this thread's live memory; the same code also runs under
//! AddressSanitizer and under Miri.
use crate::alloc;
use crate::dynty::*;
use crate::auto::Forced;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::texts;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTupleVariant};
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Error, Mapping, Serializer, Value};
use std::cell::{Cell, RefCell};
use std::error::Error as _;
use std::fmt;
use std::hash::Hash;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "every workload run twice under a counting allocator that fills fresh memory with two different patterns and overwrites released memory: live blocks and bytes return to where they were, results do not depend on the pattern; the same workloads in a process built with AddressSanitizer and interpreted by Miri; non-trivial = distinct workload input",
        assumptions: &[
            "leaks are judged per thread, so workloads that hand objects to other threads are judged by the sanitizer and the interpreter only",
            "the workloads of Miri and AddressSanitizer are those of the time given to them",
        ],
        subs: vec![
            random("lifetimes", 5, lifetimes),
            random("documents", 4, documents),
            random("wild-visitors", 5, wild_visitors),
            random("writers", 5, writers),
            random("wild-impls", 5, wild_impls),
            random("readers", 3, readers),
            random("mappings", 3, mappings),
            random("reentrant", 2, reentrant),
            random("threads", 1, threads),
            random("other-checks", 6, other_checks),
        ],
        quick_secs: 25.0,
        thorough_secs: 200.0,
        stack_mb: 16,
    }
}

/// Run `f` repeatedly; what it allocates must be gone each time, and what it
/// returns must not depend on the content of fresh memory.
fn balanced(c: &mut Case, what: &str, f: &dyn Fn() -> Result<u64, String>) -> R {
    if cfg!(miri) {
        // the interpreter itself watches; once is enough
        let r = f();
        last_panic();
        c.ev("interpreted runs");
        return r.map(|_| ()).or_else(|m| fail("lifetime", format!("{what}: {m}")));
    }
    alloc::arm();
    let mut seen: Option<u64> = None;
    let mut leaks = 0;
    let mut runs = 0;
    loop {
        last_panic();
        alloc::set_fill(if runs % 2 == 0 { 0xA5 } else { 0x3C });
        let a = alloc::live();
        let r = f();
        last_panic();
        let d = match r {
            Ok(d) => d,
            Err(m) => {
                alloc::set_fill(0);
                return fail("lifetime", format!("{what}: {m}"));
            }
        };
        let b = alloc::live();
        runs += 1;
        c.evn("allocations", b.allocs - a.allocs);
        if let Some(s) = seen {
            ensure!(s == d, "uninitialized", "{what}: two runs that differ only in the content of fresh memory give different results");
        }
        seen = Some(d);
        if b.blocks != a.blocks || b.bytes != a.bytes {
            // the first run may set up something that stays
            leaks += 1;
            ensure!(
                leaks < 4,
                "leak",
                "{what}: on every run {} blocks ({} bytes) more are live after everything was dropped than before (negative: more was released than allocated)",
                b.blocks - a.blocks,
                b.bytes - a.bytes
            );
            continue;
        }
        if runs >= 2 {
            break;
        }
    }
    alloc::set_fill(0);
    c.ev("runs back to the memory they started with");
    Ok(())
}

fn dig<T: Hash>(h: &mut u64, t: &T) {
    *h = mix(*h ^ hash_of(t));
}
/// Everything an error can be asked.
fn face(e: &Error) -> String {
    let mut s = format!("{e}|{e:?}|{e:#?}|{:?}", e.location());
    let mut x = e.source();
    while let Some(y) = x {
        s.push_str(&y.to_string());
        x = y.source();
    }
    s
}
/// Reuse released memory.
fn churn(r: &mut Rng) {
    let mut keep = Vec::new();
    for _ in 0..12 {
        let n = r.range(1, 200);
        keep.push(vec![0x77u8; n]);
    }
}

fn input(r: &mut Rng) -> Box<[u8]> {
    let mut b = texts::bytes(r);
    if small() {
        b.truncate(120);
    } else if b.len() > 20_000 {
        b.truncate(20_000);
    }
    b.into_boxed_slice()
}

/// Reads pieces, may fail or panic at some byte.
struct Rd {
    data: Box<[u8]>,
    at: usize,
    piece: usize,
    fault: usize,
    how: u8,
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.at >= self.fault {
            match self.how {
                0 => {}
                1 => panic!("reader panic"),
                2 => return Err(io::Error::new(io::ErrorKind::Other, "reader failure".to_string())),
                _ => {
                    // a failure met once
                    self.how = 0;
                    return Err(io::ErrorKind::Interrupted.into());
                }
            }
        }
        let n = self.piece.min(b.len()).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn reader(r: &mut Rng, data: Box<[u8]>) -> Rd {
    let fault = r.below(data.len() + 2);
    Rd { data, at: 0, piece: *r.pick(&[1, 2, 3, 7, 16, 100, 100_000]), fault, how: if r.bool() { 0 } else { r.below(4) as u8 } }
}

#[derive(Deserialize, Serialize, Debug)]
#[serde(rename_all = "lowercase")]
enum Kind {
    A,
    T(Box<Option<Kind>>),
    S { a: Vec<Kind>, b: Option<String> },
    P(String, i8),
}
#[derive(Deserialize, Serialize, Debug)]
struct Rec {
    #[serde(default)]
    a: Option<Box<Rec>>,
    #[serde(default, with = "serde_yaml::with::singleton_map")]
    k: Option<Kind>,
    #[serde(flatten)]
    rest: std::collections::BTreeMap<String, Value>,
}
#[derive(Deserialize, Debug)]
struct Rec2<'a> {
    #[serde(borrow, default)]
    a: Option<&'a str>,
    #[serde(borrow, default)]
    key: std::borrow::Cow<'a, str>,
    #[serde(borrow, default)]
    b: std::collections::BTreeMap<&'a str, &'a str>,
}

fn read_any<'de, D: serde::Deserializer<'de, Error = Error>>(n: usize, d: D) -> Result<String, Error> {
    Ok(match n % 17 {
        0 | 1 | 2 => format!("{:?}", Value::deserialize(d)?),
        3 => format!("{:?}", Mapping::deserialize(d)?),
        4 => format!("{:?}", Rec::deserialize(d)?),
        5 => format!("{:?}", Vec::<Value>::deserialize(d)?),
        6 => format!("{:?}", String::deserialize(d)?),
        7 => format!("{:?}", Vec::<Option<i64>>::deserialize(d)?),
        8 => format!("{:?}", Kind::deserialize(d)?),
        9 => format!("{:?}", serde_yaml::with::singleton_map_recursive::deserialize::<Vec<Kind>, _>(d)?),
        10 => format!("{:?}", IgnoredAny::deserialize(d)?),
        11 => format!("{:?}", <(u8, Value)>::deserialize(d)?),
        12 => format!("{:?}", std::collections::BTreeMap::<String, Value>::deserialize(d)?),
        13 => format!("{:?}", f32::deserialize(d)?),
        14 => format!("{:?}", u128::deserialize(d)?),
        15 => format!("{:?}", serde_yaml::value::TaggedValue::deserialize(d)?),
        _ => format!("{:?}", Option::<Vec<Value>>::deserialize(d)?),
    })
}

/// Errors and values stay what they are after parser, input and reader are gone.
fn lifetimes(c: &mut Case) -> R {
    let b = input(&mut c.rng);
    c.nontrivial(&b);
    c.sample(|| format!("{:?}", String::from_utf8_lossy(&b)));
    let seed = c.rng.next();
    balanced(c, "errors and values outliving their input", &|| {
        let mut r = Rng::new(seed);
        let mut errs: Vec<(Error, String)> = Vec::new();
        let mut vals: Vec<(Value, String)> = Vec::new();
        let mut outs: Vec<String> = Vec::new();
        {
            let mut data: Box<[u8]> = b.clone();
            let n = r.below(40);
            let route = r.below(6);
            let mut add = |x: Result<String, Error>| match x {
                Ok(s) => outs.push(s),
                Err(e) => {
                    let f = face(&e);
                    errs.push((e, f))
                }
            };
            match route {
                0 => match std::str::from_utf8(&data) {
                    Ok(s) => add(read_any(n, Deserializer::from_str(s))),
                    Err(_) => add(read_any(n, Deserializer::from_slice(&data))),
                },
                1 => add(read_any(n, Deserializer::from_slice(&data))),
                2 => {
                    let rd = reader(&mut r, data.clone());
                    if let Ok(x) = guarded(|| read_any(n, Deserializer::from_reader(rd))) {
                        add(x)
                    }
                }
                3 => {
                    for (i, d) in Deserializer::from_slice(&data).take(5).enumerate() {
                        add(read_any(n + i, d));
                    }
                }
                4 => match serde_yaml::from_slice::<Rec2>(&data) {
                    Ok(v) => add(Ok(format!("{v:?}"))),
                    Err(e) => add(Err(e)),
                },
                _ => match serde_yaml::from_slice::<Value>(&data) {
                    Ok(mut v) => {
                        add(read_any(n, &v));
                        if r.bool() {
                            if let Err(e) = v.apply_merge() {
                                add(Err(e));
                            }
                        }
                        vals.push((v.clone(), format!("{v:?}")));
                        add(read_any(n, v));
                    }
                    Err(e) => add(Err(e)),
                },
            }
            data.fill(b'#');
        }
        churn(&mut r);
        let mut h = 0;
        for (e, f) in &errs {
            let now = face(e);
            if now != *f {
                return Err(format!("an error changed after its input was gone: {f:?} then {now:?}"));
            }
            dig(&mut h, &now);
        }
        for (v, f) in &vals {
            let now = format!("{v:?}");
            if now != *f {
                return Err(format!("a value changed after its input was gone: {f:?} then {now:?}"));
            }
            dig(&mut h, &now);
        }
        for o in &outs {
            dig(&mut h, o);
        }
        Ok(h)
    })?;
    c.ev("inputs outlived");
    Ok(())
}

/// Documents kept, dropped and read in any order, after their parent too.
fn documents(c: &mut Case) -> R {
    let n = c.rng.range(1, 4);
    let mut t = String::new();
    for _ in 0..n {
        let d = texts::valid_doc(&mut c.rng);
        t.push_str("---\n");
        t.push_str(&d);
        t.push('\n');
    }
    if c.rng.chance(1, 3) {
        t = crate::props::c05::mutate(&mut c.rng, &t);
    }
    let data: Box<[u8]> = if small() && t.len() > 200 { t.as_bytes()[..200].into() } else { t.into_bytes().into() };
    c.nontrivial(&data);
    let seed = c.rng.next();
    balanced(c, "documents read out of order", &|| {
        let mut r = Rng::new(seed);
        let mut h = 0;
        let mut parent = Some(match r.below(3) {
            0 => Deserializer::from_slice(&data),
            1 => Deserializer::from_reader(io::Cursor::new(data.clone())),
            _ => match std::str::from_utf8(&data) {
                Ok(s) => Deserializer::from_str(s),
                Err(_) => Deserializer::from_slice(&data),
            },
        });
        let mut docs: Vec<Deserializer> = Vec::new();
        let mut errs: Vec<Error> = Vec::new();
        let steps = r.range(1, 14);
        for _ in 0..steps {
            match r.below(9) {
                0..=3 => {
                    if let Some(p) = &mut parent {
                        if let Some(d) = p.next() {
                            docs.push(d);
                        }
                    }
                }
                4 if !docs.is_empty() => {
                    let i = r.below(docs.len());
                    drop(docs.swap_remove(i));
                }
                5 | 6 if !docs.is_empty() => {
                    let i = r.below(docs.len());
                    let d = docs.swap_remove(i);
                    match read_any(r.below(17), d) {
                        Ok(s) => dig(&mut h, &s),
                        Err(e) => errs.push(e),
                    }
                }
                7 => drop(parent.take()),
                8 if !docs.is_empty() => {
                    // a document may be iterated again
                    let i = r.below(docs.len());
                    let mut d = docs.swap_remove(i);
                    if let Ok(Some(x)) = guarded(|| d.next()) {
                        docs.push(x);
                    }
                    docs.push(d);
                }
                _ => {}
            }
        }
        if r.bool() {
            drop(parent);
        }
        for d in docs {
            match read_any(r.below(17), d) {
                Ok(s) => dig(&mut h, &s),
                Err(e) => errs.push(e),
            }
        }
        churn(&mut r);
        for e in &errs {
            dig(&mut h, &face(e));
        }
        Ok(h)
    })?;
    c.ev("document histories");
    Ok(())
}

// ---- visitors that do anything at all

thread_local! {
    static LEFT: Cell<i64> = Cell::new(0);
    static HOW: Cell<u8> = Cell::new(0);
    static TRACE: Cell<u64> = Cell::new(0);
}
fn tick() -> bool {
    LEFT.with(|l| {
        l.set(l.get() - 1);
        l.get() <= 0
    })
}
fn trace<T: Hash>(t: &T) {
    TRACE.with(|x| x.set(mix(x.get() ^ hash_of(t))));
}
/// At the chosen step: fail or panic.
fn stop<E: de::Error>() -> Result<(), E> {
    if tick() {
        match HOW.with(|h| h.get()) {
            0 => return Err(E::custom("wild failure")),
            1 => panic!("wild panic"),
            2 => return Err(E::custom(String::from("missing ") + "heap message")),
            _ => return Err(E::invalid_length(7, &"a wild visitor")),
        }
    }
    Ok(())
}
#[derive(Clone, Copy)]
struct Wild(u64);
impl<'de> DeserializeSeed<'de> for Wild {
    type Value = Vec<String>;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Vec<String>, D::Error> {
        stop()?;
        let n = Wild(mix(self.0));
        match self.0 % 28 {
            0 => d.deserialize_str(n),
            1 => d.deserialize_string(n),
            2 => d.deserialize_option(n),
            3 => d.deserialize_unit(n),
            4 => d.deserialize_newtype_struct("N", n),
            5 => d.deserialize_tuple(2, n),
            6 => d.deserialize_struct("S", &["a", "b", "key"], n),
            7 | 8 => d.deserialize_enum("E", &["a", "b", "t"], n),
            9 => d.deserialize_identifier(n),
            10 => d.deserialize_ignored_any(n),
            11 => d.deserialize_seq(n),
            12 => d.deserialize_map(n),
            13 => d.deserialize_bytes(n),
            14 => d.deserialize_i64(n),
            15 => d.deserialize_u128(n),
            16 => d.deserialize_f64(n),
            17 => d.deserialize_bool(n),
            18 => d.deserialize_tuple_struct("T", 1, n),
            19 => d.deserialize_unit_struct("U", n),
            20 => d.deserialize_char(n),
            _ => d.deserialize_any(n),
        }
    }
}
macro_rules! leafs { ($($f:ident: $t:ty),*) => { $(fn $f<E: de::Error>(self, x: $t) -> Result<Vec<String>, E> { self.leaf(format!("{x:?}")) })* } }
impl<'de> Visitor<'de> for Wild {
    type Value = Vec<String>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something wild")
    }
    leafs! { visit_bool: bool, visit_i64: i64, visit_u64: u64, visit_i128: i128, visit_u128: u128, visit_f64: f64, visit_str: &str, visit_string: String, visit_borrowed_str: &'de str, visit_bytes: &[u8] }
    fn visit_unit<E: de::Error>(self) -> Result<Vec<String>, E> {
        self.leaf("()".into())
    }
    fn visit_none<E: de::Error>(self) -> Result<Vec<String>, E> {
        self.leaf("none".into())
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Vec<String>, D::Error> {
        if self.0 % 9 == 0 {
            drop(d);
            return self.leaf("dropped".into());
        }
        self.deserialize(d)
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Vec<String>, D::Error> {
        self.visit_some(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<String>, A::Error> {
        let mut out = vec![];
        let mut s = self.0;
        let mut errors = 0;
        loop {
            stop()?;
            s = mix(s);
            trace(&a.size_hint());
            match s % 14 {
                0 => return Ok(out),
                1 => {
                    // carry on after a failed element
                    match a.next_element::<u8>() {
                        Ok(None) => return Ok(out),
                        Ok(Some(x)) => out.push(x.to_string()),
                        Err(e) => {
                            trace(&e.to_string());
                            errors += 1;
                            if errors > 3 {
                                return Err(e);
                            }
                        }
                    }
                }
                2 => {
                    if a.next_element::<IgnoredAny>()?.is_none() && a.next_element::<IgnoredAny>()?.is_none() {
                        return Ok(out);
                    }
                }
                _ => match a.next_element_seed(Wild(s))? {
                    Some(v) => out.extend(v),
                    None => return Ok(out),
                },
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<String>, A::Error> {
        let mut out = vec![];
        let mut s = self.0;
        let mut errors = 0;
        loop {
            stop()?;
            s = mix(s);
            trace(&a.size_hint());
            match s % 16 {
                0 => return Ok(out),
                1 => {
                    // two keys in a row
                    if a.next_key_seed(Wild(s))?.is_none() {
                        return Ok(out);
                    }
                    if a.next_key::<IgnoredAny>()?.is_none() {
                        return Ok(out);
                    }
                }
                2 => {
                    // a value without its key: documented to panic in some maps
                    match a.next_value_seed(Wild(s)) {
                        Ok(v) => out.extend(v),
                        Err(e) => {
                            trace(&e.to_string());
                            errors += 1;
                            if errors > 3 {
                                return Err(e);
                            }
                        }
                    }
                }
                3 => {
                    if a.next_entry::<IgnoredAny, IgnoredAny>()?.is_none() {
                        return Ok(out);
                    }
                }
                4 => {
                    // a key kept beyond a failing value
                    let Some(k) = a.next_key_seed(Wild(s))? else { return Ok(out) };
                    if a.next_value::<u8>().is_err() {
                        errors += 1;
                        if errors > 3 {
                            return Ok(k);
                        }
                    }
                    out.extend(k);
                }
                _ => {
                    let Some(k) = a.next_key_seed(Wild(s))? else { return Ok(out) };
                    out.extend(k);
                    out.extend(a.next_value_seed(Wild(s ^ 7))?);
                }
            }
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Vec<String>, A::Error> {
        stop()?;
        let s = mix(self.0);
        if s % 11 == 0 {
            drop(a);
            return Ok(vec![]);
        }
        let (mut out, v) = a.variant_seed(Wild(s))?;
        out.extend(match s % 7 {
            0 => {
                v.unit_variant()?;
                vec![]
            }
            1 => v.tuple_variant(1, Wild(s))?,
            2 => v.struct_variant(&["a"], Wild(s))?,
            3 => {
                drop(v);
                vec!["variant dropped".into()]
            }
            _ => v.newtype_variant_seed(Wild(s))?,
        });
        Ok(out)
    }
}
impl Wild {
    fn leaf<E: de::Error>(self, s: String) -> Result<Vec<String>, E> {
        stop()?;
        if self.0 % 60 == 0 {
            return Err(E::invalid_type(de::Unexpected::Str(&s), &self));
        }
        Ok(vec![s])
    }
}

fn wild_visitors(c: &mut Case) -> R {
    let b = input(&mut c.rng);
    c.nontrivial(&b);
    for _ in 0..if small() { 1 } else { 3 } {
        let seed = c.rng.next();
        let route = c.rng.below(5);
        let left = if c.rng.chance(1, 5) { 3000 } else { c.rng.range(1, 60) as i64 };
        let panics = Cell::new(0u64);
        balanced(c, "a visitor that fails, panics or breaks the protocol", &|| {
            let mut r = Rng::new(seed);
            let how = r.below(4) as u8;
            let arm = || {
                LEFT.with(|l| l.set(left));
                HOW.with(|h| h.set(how));
                TRACE.with(|t| t.set(0));
            };
            arm();
            let out: Result<Vec<Result<Vec<String>, Error>>, String> = guarded(|| match route {
                0 => vec![Wild(seed).deserialize(Deserializer::from_slice(&b))],
                1 => vec![Wild(seed).deserialize(Deserializer::from_reader(&b[..]))],
                2 => {
                    let mut v = vec![];
                    for d in Deserializer::from_slice(&b).take(4) {
                        v.push(Wild(seed).deserialize(d));
                        arm();
                    }
                    v
                }
                3 => match serde_yaml::from_slice::<Value>(&b) {
                    Ok(v) => vec![Wild(seed).deserialize(&v)],
                    Err(e) => vec![Err(e)],
                },
                _ => match serde_yaml::from_slice::<Value>(&b) {
                    Ok(v) => vec![Wild(seed).deserialize(v)],
                    Err(e) => vec![Err(e)],
                },
            });
            let mut h = TRACE.with(|t| t.get());
            churn(&mut r);
            match out {
                Ok(rs) => {
                    for x in rs {
                        match x {
                            Ok(v) => dig(&mut h, &v),
                            Err(e) => dig(&mut h, &face(&e)),
                        }
                    }
                }
                Err(p) => {
                    panics.set(panics.get() + 1);
                    dig(&mut h, &p)
                }
            }
            Ok(h)
        })?;
        c.evn("visitor panics unwound", panics.get());
        c.ev("wild visitors");
    }
    Ok(())
}

// ---- writers

struct Wr {
    got: Vec<u8>,
    at: usize,
    how: u8,
    short: usize,
    /// the fault is met once only
    once: bool,
    fired: bool,
}
impl Write for Wr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len().min(self.short);
        if !(self.once && self.fired) {
            let left = self.at.saturating_sub(self.got.len());
            if left == 0 && self.how != 0 {
                self.fired = true;
                match self.how {
                    1 => panic!("writer panic"),
                    2 => return Err(io::Error::new(io::ErrorKind::Other, format!("writer failure at {}", self.at))),
                    3 => return Ok(0),
                    _ => return Err(io::ErrorKind::Interrupted.into()).or_else(|e: io::Error| if self.once { Err(e) } else { Ok(n) }),
                }
            }
            if self.how != 0 {
                n = n.min(left.max(1));
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.how {
            5 => panic!("flush panic"),
            6 => Err(io::Error::new(io::ErrorKind::Other, "flush failure".to_string())),
            _ => Ok(()),
        }
    }
}
fn writer(r: &mut Rng) -> Wr {
    Wr { got: vec![], at: if r.bool() { r.below(40) } else { r.below(400) }, how: if r.chance(1, 4) { 0 } else { r.range(1, 6) as u8 }, short: *r.pick(&[1, 3, 10, 1 << 20]), once: r.bool(), fired: false }
}

enum V {
    U(Value),
    T(Ty, TV, u8),
    W(u64),
}
impl Serialize for V {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::U(v) => v.serialize(s),
            V::T(ty, tv, mode) => dynv(ty, tv, *mode).serialize(s),
            V::W(seed) => Ws(*seed).serialize(s),
        }
    }
}
fn gen_v(r: &mut Rng) -> V {
    match r.below(5) {
        0 | 1 => {
            let cfg = GenCfg { nested_tags: r.chance(1, 5), ..GenCfg::default() };
            V::U(to_val(&gen_m(r, &cfg)))
        }
        2 => V::W(r.next()),
        _ => {
            let cfg = TyCfg { single: r.chance(1, 4), ..TyCfg::default() };
            let d = r.range(1, 3);
            let ty = gen_ty(r, &cfg, d);
            let mut fuel = r.range(3, if small() { 12 } else { 40 });
            let tv = gen_tv(r, &ty, &cfg, &mut fuel);
            V::T(ty, tv, r.below(32) as u8)
        }
    }
}

/// Serializer objects: moved, used again after a failure or a panic, flushed,
/// unwrapped or dropped at any moment, over healthy and failing writers.
fn writers(c: &mut Case) -> R {
    let n = c.rng.range(1, 4);
    let mut r0 = c.rng.clone();
    let docs: Vec<V> = (0..n).map(|_| gen_v(&mut r0)).collect();
    c.rng = r0;
    let seed = c.rng.next();
    c.nontrivial(&seed);
    let panics = Cell::new(0u64);
    balanced(c, "serializer objects over failing writers", &|| {
        let mut r = Rng::new(seed);
        LEFT.with(|l| l.set(if seed % 3 == 0 { 10 + (seed % 50) as i64 } else { 1 << 40 }));
        HOW.with(|h| h.set((seed >> 8) as u8 % 3));
        let mut h = 0u64;
        let mut buf: Vec<u8> = Vec::new();
        let own = r.bool();
        let mut errs = vec![];
        let mut note = |x: Result<Result<(), Error>, String>, h: &mut u64| match x {
            Ok(Ok(())) => dig(h, &1),
            Ok(Err(e)) => {
                dig(h, &face(&e));
                errs.push(e)
            }
            Err(p) => {
                panics.set(panics.get() + 1);
                dig(h, &p)
            }
        };
        if own {
            let mut sers: Vec<Serializer<Wr>> = vec![Serializer::new(writer(&mut r))];
            if r.bool() {
                sers.push(Serializer::new(writer(&mut r)));
            }
            for _ in 0..r.range(1, 9) {
                if sers.is_empty() {
                    break;
                }
                let i = r.below(sers.len());
                match r.below(9) {
                    0..=3 => {
                        let d = &docs[r.below(docs.len())];
                        let s = &mut sers[i];
                        note(guarded(|| d.serialize(s)), &mut h);
                    }
                    4 => {
                        let s = &mut sers[i];
                        note(guarded(|| s.flush()), &mut h);
                    }
                    5 => {
                        let s = sers.swap_remove(i);
                        let w = guarded(|| s.into_inner().map(|w| dig(&mut h, &w.got)));
                        note(w, &mut h);
                    }
                    6 => {
                        // move it about
                        let s = Box::new(sers.swap_remove(i));
                        churn(&mut r);
                        sers.push(*s);
                    }
                    7 if sers.len() > 1 => sers.swap(0, 1),
                    8 if r.bool() => {
                        drop(sers.swap_remove(i));
                    }
                    _ => {}
                }
            }
            for s in sers {
                if r.bool() {
                    let w = guarded(|| s.into_inner().map(|w| dig(&mut h, &w.got)));
                    note(w, &mut h);
                }
            }
        } else {
            match r.below(4) {
                0 => {
                    let mut s = Serializer::new(&mut buf);
                    for d in &docs {
                        note(guarded(|| d.serialize(&mut s)), &mut h);
                    }
                    if r.bool() {
                        note(guarded(|| s.into_inner().map(|w| w.push(b'#'))), &mut h);
                    }
                }
                1 => note(guarded(|| serde_yaml::to_writer(&mut buf, &docs[0])), &mut h),
                2 => note(guarded(|| serde_yaml::to_string(&docs[0]).map(|s| buf.extend(s.into_bytes()))), &mut h),
                _ => {
                    let w = writer(&mut r);
                    note(guarded(|| serde_yaml::to_writer(w, &docs[0])), &mut h)
                }
            }
            dig(&mut h, &buf);
        }
        churn(&mut r);
        for e in &errs {
            dig(&mut h, &face(e));
        }
        Ok(h)
    })?;
    c.evn("writer and impl panics unwound", panics.get());
    c.ev("serializer histories");
    Ok(())
}

// ---- Serialize impls that do anything at all

struct Ws(u64);
impl Ws {
    fn go<S: serde::Serializer>(&self, s: S, depth: usize) -> Result<S::Ok, S::Error> {
        if tick() {
            match HOW.with(|h| h.get()) {
                0 => return Err(serde::ser::Error::custom("impl failure")),
                1 => panic!("impl panic"),
                _ => {}
            }
        }
        let x = mix(self.0);
        let kid = |k: u64| Wk(mix(x ^ k), depth + 1);
        let n = if depth > 3 { x % 8 } else { x % 24 };
        match n {
            0 => s.serialize_str("text"),
            1 => s.serialize_str("two\nlines\n"),
            2 => s.serialize_i64(-(x as i64 & 0xffff)),
            3 => s.serialize_f64(1.5),
            4 => s.serialize_unit(),
            5 => s.serialize_bytes(b"bytes"),
            6 => s.serialize_none(),
            7 => s.serialize_char('\u{1F600}'),
            8 | 9 => {
                let mut q = s.serialize_seq(if x & 256 == 0 { None } else { Some((x >> 9) as usize % 5) })?;
                for i in 0..(x >> 12) % 5 {
                    match (x >> 20) % 9 {
                        0 => {
                            // an element that writes nothing
                            q.serialize_element(&Nothing)?;
                        }
                        1 => {
                            // a failing element, carried on after
                            let _ = q.serialize_element(&Fails);
                        }
                        _ => q.serialize_element(&kid(i))?,
                    }
                }
                q.end()
            }
            10 | 11 => {
                let mut q = s.serialize_map(if x & 256 == 0 { None } else { Some((x >> 9) as usize % 5) })?;
                for i in 0..(x >> 12) % 5 {
                    match (x >> 20) % 12 {
                        0 => q.serialize_key(&kid(i))?,
                        1 => q.serialize_value(&kid(i))?,
                        2 => {
                            q.serialize_key(&kid(i))?;
                            let _ = q.serialize_value(&Fails);
                        }
                        _ => q.serialize_entry(&kid(i), &kid(i + 50))?,
                    }
                }
                q.end()
            }
            12 => {
                let mut q = s.serialize_struct("S", 2)?;
                q.serialize_field("a", &kid(1))?;
                q.skip_field("b")?;
                q.serialize_field("c", &kid(2))?;
                q.end()
            }
            13 => s.serialize_newtype_variant("E", 0, "T", &kid(1)),
            14 => s.serialize_newtype_struct("N", &kid(1)),
            15 => {
                let mut q = s.serialize_tuple_variant("E", 0, "", 1)?;
                q.serialize_field(&kid(1))?;
                q.end()
            }
            16 => {
                let mut q = s.serialize_struct_variant("E", 0, "S v", 1)?;
                q.serialize_field("f", &kid(1))?;
                q.end()
            }
            17 => s.serialize_unit_variant("E", 0, "U"),
            18 => s.serialize_some(&kid(1)),
            // a container opened and never closed
            19 if x & 1024 == 0 => {
                let mut q = s.serialize_seq(Some(3))?;
                q.serialize_element(&kid(1))?;
                drop(q);
                Err(serde::ser::Error::custom("gave up inside a sequence"))
            }
            20 => s.collect_str(&format_args!("collected {}", x % 100)),
            21 => to_val(&gen_m(&mut Rng::new(x), &GenCfg::default())).serialize(s),
            22 => serde_yaml::with::singleton_map::serialize(&kid(1), s),
            23 => serde_yaml::with::singleton_map_recursive::serialize(&kid(1), s),
            _ => s.serialize_u128(1 << 100),
        }
    }
}
impl Serialize for Ws {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.go(s, 0)
    }
}
struct Wk(u64, usize);
impl Serialize for Wk {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // the recursive helpers wrap their serializer at each level
        if self.1 > 4 {
            return s.serialize_bool(true);
        }
        // erased, or the helpers' types would grow without bound
        let mut out = None;
        {
            let f = &mut out;
            let v = match serde_yaml::to_value(Erased(self.0, self.1)) {
                Ok(v) => v,
                Err(e) => return Err(serde::ser::Error::custom(e)),
            };
            *f = Some(v);
        }
        match out {
            Some(v) if self.0 & 1 == 0 => v.serialize(s),
            Some(Value::Sequence(q)) => s.collect_seq(q),
            Some(Value::Mapping(q)) => s.collect_map(q),
            Some(v) => v.serialize(s),
            None => s.serialize_unit(),
        }
    }
}
struct Erased(u64, usize);
impl Serialize for Erased {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.1 > 2 {
            return s.serialize_str("leaf");
        }
        Ws(self.0).go(s, self.1)
    }
}
struct Nothing;
impl Serialize for Nothing {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("nothing written"))
    }
}
struct Fails;
impl Serialize for Fails {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(None)?;
        q.serialize_key("k")?;
        Err(serde::ser::Error::custom("failed after a key"))
    }
}

fn wild_impls(c: &mut Case) -> R {
    for _ in 0..if small() { 2 } else { 4 } {
        let seed = c.rng.next();
        c.nontrivial(&seed);
        let left = if c.rng.bool() { 1 << 40 } else { c.rng.range(1, 15) as i64 };
        let panics = Cell::new(0u64);
        let oks = Cell::new(0u64);
        balanced(c, "a Serialize impl that fails, panics or breaks the protocol", &|| {
            let mut r = Rng::new(seed);
            LEFT.with(|l| l.set(left));
            HOW.with(|h| h.set(r.below(2) as u8));
            let v = Ws(r.next());
            let mut h = 0u64;
            let out = guarded(|| match r.below(5) {
                0 | 1 => serde_yaml::to_string(&v),
                2 => serde_yaml::to_value(&v).map(|v| format!("{v:?}")),
                3 => {
                    let mut b = Vec::new();
                    serde_yaml::to_writer(&mut b, &vec![v]).map(|_| String::from_utf8_lossy(&b).into_owned())
                }
                _ => {
                    // the serializer is used again whatever happened before
                    let mut s = Serializer::new(Vec::new());
                    let a = catch_unwind(AssertUnwindSafe(|| v.serialize(&mut s).map_err(|e| e.to_string())));
                    LEFT.with(|l| l.set(1 << 40));
                    let b = Ws(r.next()).serialize(&mut s).map_err(|e| e.to_string());
                    let x = format!("{:?} {b:?}", a.ok());
                    s.into_inner().map(|w| x + &String::from_utf8_lossy(&w))
                }
            });
            churn(&mut r);
            match out {
                Ok(Ok(s)) => {
                    oks.set(oks.get() + 1);
                    dig(&mut h, &s)
                }
                Ok(Err(e)) => dig(&mut h, &face(&e)),
                Err(p) => {
                    panics.set(panics.get() + 1);
                    dig(&mut h, &p)
                }
            }
            Ok(h)
        })?;
        c.evn("impl panics unwound", panics.get());
        c.evn("wild impls written", oks.get());
        c.ev("wild impls");
    }
    Ok(())
}

fn readers(c: &mut Case) -> R {
    let b = input(&mut c.rng);
    c.nontrivial(&b);
    for _ in 0..if small() { 1 } else { 3 } {
        let seed = c.rng.next();
        let panics = Cell::new(0u64);
        let fails = Cell::new(0u64);
        balanced(c, "readers that fail or panic", &|| {
            let mut r = Rng::new(seed);
            let rd = reader(&mut r, b.clone());
            let n = r.below(17);
            let many = r.bool();
            let mut h = 0u64;
            let out = guarded(|| {
                let d = Deserializer::from_reader(rd);
                if many {
                    d.take(4).map(|d| read_any(n, d)).collect()
                } else {
                    vec![read_any(n, d)]
                }
            });
            churn(&mut r);
            match out {
                Ok(v) => {
                    for x in v {
                        match x {
                            Ok(s) => dig(&mut h, &s),
                            Err(e) => {
                                fails.set(fails.get() + 1);
                                dig(&mut h, &face(&e))
                            }
                        }
                    }
                }
                Err(p) => {
                    panics.set(panics.get() + 1);
                    dig(&mut h, &p)
                }
            }
            Ok(h)
        })?;
        c.evn("reader panics unwound", panics.get());
        c.evn("reads that ended in an error", fails.get());
    }
    Ok(())
}

/// Mapping and value operations interrupted by panicking callbacks and dropped iterators.
fn mappings(c: &mut Case) -> R {
    let m = M::Map((0..c.rng.range(0, 9)).map(|i| (M::Seq(vec![M::Int(i as i128), M::S("k".into())]), M::S(format!("value {i}")))).collect());
    let other = gen_m(&mut c.rng, &GenCfg::default());
    let seed = c.rng.next();
    c.nontrivial(&(m.canon(), other.canon(), seed));
    balanced(c, "mapping operations interrupted by callbacks", &|| {
        let mut r = Rng::new(seed);
        let mut v = to_val(&m);
        let o = to_val(&other);
        let mut h = 0u64;
        for _ in 0..r.range(1, 8) {
            let at = r.below(8);
            let n = Cell::new(0);
            let boom = || {
                n.set(n.get() + 1);
                if n.get() > at {
                    panic!("callback panic")
                }
            };
            let how = r.below(13);
            let rr = RefCell::new(r.clone());
            r.next();
            let map = v.as_mapping_mut().unwrap();
            let res = guarded(|| match how {
                0 => map.retain(|k, x| {
                    boom();
                    dig(&mut 0, &format!("{k:?}"));
                    x.is_string()
                }),
                1 => {
                    map.entry(Value::from("new")).or_insert_with(|| {
                        boom();
                        Value::from("x")
                    });
                }
                2 => {
                    map.entry(o.clone()).and_modify(|x| {
                        boom();
                        *x = Value::from(3)
                    });
                }
                3 => map.extend((0..9).map(|i| {
                    boom();
                    (Value::from(i), Value::from("long enough to be on the heap"))
                })),
                4 => {
                    let m2: Mapping = (0..9)
                        .map(|i| {
                            boom();
                            (Value::from(vec![i]), o.clone())
                        })
                        .collect();
                    map.insert(Value::from("m2"), Value::Mapping(m2));
                }
                5 => {
                    let mut it = map.clone().into_iter();
                    for _ in 0..at {
                        it.next();
                    }
                    if at % 2 == 0 {
                        it.next();
                    }
                }
                6 => {
                    let mut it = map.clone().into_keys();
                    it.next();
                    let mut it = map.clone().into_values();
                    it.next();
                }
                7 => {
                    let old = map.insert(o.clone(), o.clone());
                    drop(old);
                }
                8 => {
                    let keys: Vec<Value> = map.keys().cloned().collect();
                    if !keys.is_empty() {
                        let k = &keys[rr.borrow_mut().below(keys.len())];
                        let e = if at % 2 == 0 { map.swap_remove_entry(k) } else { map.shift_remove_entry(k) };
                        drop(e);
                    }
                }
                9 => {
                    map.shrink_to_fit();
                    map.reserve(at * 3);
                }
                10 => {
                    for (_, x) in map.iter_mut() {
                        boom();
                        *x = o.clone();
                    }
                }
                11 => {
                    let e = map.entry(Value::from("new"));
                    drop(e);
                    if let serde_yaml::mapping::Entry::Occupied(e) = map.entry(Value::from("new")) {
                        drop(e.remove_entry());
                    }
                }
                _ => {
                    let mut t = Value::Mapping(std::mem::take(map));
                    t["<<"] = o.clone();
                    let e = t.apply_merge().err();
                    if let Value::Mapping(t) = t {
                        *map = t;
                    }
                    map.remove("<<");
                    drop(e);
                }
            });
            dig(&mut h, &res);
            if how == 0 && res.is_err() {
                // the map's index is left behind by a panicking retain (safely):
                // it is only iterated and dropped from here on
                for (k, x) in v.as_mapping().unwrap() {
                    dig(&mut h, &format!("{k:?} {x:?}"));
                }
                return Ok(h);
            }
            // still a mapping whose entries can all be found
            let map = v.as_mapping().unwrap();
            let mut n = 0;
            for (k, x) in map {
                n += 1;
                if map.get(k) != Some(x) {
                    return Err(format!("after a panicking callback (way {how}) the entry {k:?} is not found"));
                }
            }
            if n != map.len() {
                return Err(format!("after a panicking callback (way {how}) {n} entries are iterated, len() is {}", map.len()));
            }
        }
        dig(&mut h, &format!("{v:?}"));
        Ok(h)
    })?;
    c.ev("interrupted mapping histories");
    Ok(())
}

/// The library used inside its own callbacks.
struct Inside(u64);
impl<'de> Deserialize<'de> for Inside {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Inside, D::Error> {
        let v = Value::deserialize(d)?;
        let t = serde_yaml::to_string(&v).map_err(de::Error::custom)?;
        let w: Value = serde_yaml::from_str(&t).map_err(de::Error::custom)?;
        let u: Result<u8, Error> = serde_yaml::from_value(w);
        match u {
            Ok(x) => Ok(Inside(x as u64)),
            Err(e) if e.to_string().len() % 7 == 0 => Err(de::Error::custom(e)),
            Err(e) => Ok(Inside(hash_of(&face(&e)))),
        }
    }
}
impl Serialize for Inside {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v: Value = serde_yaml::from_str(&format!("[{}, {{a: &x b, c: *x}}]", self.0)).map_err(serde::ser::Error::custom)?;
        let t = serde_yaml::to_string(&v).map_err(serde::ser::Error::custom)?;
        s.collect_seq([t.as_str(), "x"])
    }
}
struct InsideRead<'a>(Deserializer<'a>, Vec<u8>);
impl<'a> Read for InsideRead<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.1.is_empty() {
            match self.0.next() {
                None => return Ok(0),
                Some(d) => {
                    let v = Value::deserialize(d).map_err(|e| io::Error::new(io::ErrorKind::Other, Forced(e)))?;
                    self.1 = serde_yaml::to_string(&[v]).map_err(|e| io::Error::new(io::ErrorKind::Other, Forced(e)))?.into_bytes();
                }
            }
        }
        let n = b.len().min(self.1.len()).min(5);
        b[..n].copy_from_slice(&self.1[..n]);
        self.1.drain(..n);
        Ok(n)
    }
}
struct InsideWrite(Option<Serializer<Vec<u8>>>, Vec<u8>);
impl Write for InsideWrite {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(11);
        if let Some(s) = &mut self.0 {
            String::from_utf8_lossy(&b[..n]).serialize(s).map_err(|e| io::Error::new(io::ErrorKind::Other, Forced(e)))?;
        }
        self.1.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(s) = self.0.take() {
            let w = s.into_inner().map_err(|e| io::Error::new(io::ErrorKind::Other, Forced(e)))?;
            self.1.extend(w);
        }
        Ok(())
    }
}
fn reentrant(c: &mut Case) -> R {
    let b = input(&mut c.rng);
    c.nontrivial(&b);
    let seed = c.rng.next();
    balanced(c, "the library used inside its own callbacks", &|| {
        let r = &mut Rng::new(seed);
        let mut h = 0u64;
        let mut errs = vec![];
        match r.below(4) {
            0 => match serde_yaml::from_slice::<Vec<Inside>>(&b) {
                Ok(v) => {
                    for x in &v {
                        dig(&mut h, &x.0)
                    }
                    dig(&mut h, &serde_yaml::to_string(&v).map_err(|e| e.to_string()));
                }
                Err(e) => errs.push(e),
            },
            1 => {
                for d in Deserializer::from_slice(&b).take(4) {
                    match std::collections::BTreeMap::<String, Inside>::deserialize(d) {
                        Ok(v) => dig(&mut h, &v.len()),
                        Err(e) => errs.push(e),
                    }
                }
            }
            2 => {
                let rd = InsideRead(Deserializer::from_slice(&b), vec![]);
                match guarded(|| serde_yaml::from_reader::<_, Value>(rd)) {
                    Ok(Ok(v)) => dig(&mut h, &format!("{v:?}")),
                    Ok(Err(e)) => errs.push(e),
                    Err(p) => dig(&mut h, &p),
                }
            }
            _ => {
                let mut s = Serializer::new(InsideWrite(Some(Serializer::new(vec![])), vec![]));
                for i in 0..3u64 {
                    if let Err(e) = Inside(i).serialize(&mut s) {
                        errs.push(e);
                    }
                }
                if r.bool() {
                    match s.into_inner() {
                        Ok(w) => dig(&mut h, &w.1),
                        Err(e) => errs.push(e),
                    }
                }
            }
        }
        churn(r);
        for e in errs {
            dig(&mut h, &face(&e));
        }
        Ok(h)
    })?;
    c.ev("reentrant uses");
    Ok(())
}

/// Values, errors and deserializers shared with and dropped by other threads.
fn threads(c: &mut Case) -> R {
    let b = input(&mut c.rng);
    c.nontrivial(&b);
    let mut errs: Vec<(Error, String)> = vec![];
    let mut v = None;
    for d in Deserializer::from_slice(&b).take(3) {
        match Value::deserialize(d) {
            Ok(x) => v = Some(x),
            Err(e) => {
                let f = face(&e);
                errs.push((e, f))
            }
        }
    }
    // errors of later documents share one source
    for d in Deserializer::from_slice(b"a: [\n").take(2) {
        if let Err(e) = Value::deserialize(d) {
            let f = face(&e);
            errs.push((e, f));
        }
    }
    // the whole stream fails: every document read from it reports the same error
    let mut de = Deserializer::from_slice(b"\xff\xff");
    let many: Vec<Deserializer> = (0..4).filter_map(|_| de.next()).collect();
    for d in many {
        if let Err(e) = Value::deserialize(d) {
            let f = face(&e);
            errs.push((e, f));
        }
    }
    drop(de);
    if !crate::auto::threads_ok() {
        c.ev("types that may not change threads: see C07");
        return Ok(());
    }
    let shared = Arc::new(Forced((errs, v)));
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3)
            .map(|i| {
                let sh = shared.clone();
                let b = &b;
                s.spawn(move || {
                    for (e, f) in &sh.view().0 {
                        if face(e) != *f {
                            return Some(format!("an error differs on another thread: {f}"));
                        }
                    }
                    if let Some(v) = &sh.view().1 {
                        let _ = serde_yaml::to_string(v);
                        let w = v.clone();
                        if w != *v {
                            return Some("a clone on another thread differs".into());
                        }
                    }
                    // and the same input parsed concurrently
                    let n = Deserializer::from_slice(b).take(3).filter(|_| true).count();
                    let _ = n + i;
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("thread panicked".into()))).collect()
    });
    ensure!(bad.is_empty(), "threads", "{:?}", bad);
    if let Ok(f) = Arc::try_unwrap(shared) {
        let (errs, v) = f.get();
        c.evn("errors shared between threads", errs.len() as u64);
        // each error is dropped by another thread
        let hs: Vec<_> = errs.into_iter().map(|(e, _)| Forced(e)).map(|e| std::thread::spawn(move || drop(e.get()))).collect();
        for h in hs {
            let _ = h.join();
        }
        let v = Forced(v);
        let _ = std::thread::spawn(move || drop(v.get())).join();
    }
    c.ev("thread runs");
    Ok(())
}

/// The workloads of the other checks, under the same accounting.
const OTHERS: &[(&str, &str)] = &[
    ("C01", "trees"),
    ("C01", "nested-tags"),
    ("C02", "typed"),
    ("C02", "derived"),
    ("C02", "refused"),
    ("C03", "strings"),
    ("C03", "neighbours"),
    ("C04", "positions"),
    ("C04", "tags"),
    ("C05", "rendered"),
    ("C05", "aliases"),
    ("C05", "mutated"),
    ("C06", "routes"),
    ("C06", "faults"),
    ("C06", "encoding"),
    ("C07", "bytes"),
    ("C07", "hostile-visitors"),
    ("C07", "alias-shapes"),
    ("C07", "values-into-types"),
    ("C09", "streams"),
    ("C09", "malformed"),
    ("C09", "any_stream"),
    ("C09", "serializer"),
    ("C10", "offsets"),
    ("C10", "patterns"),
    ("C10", "history"),
    ("C11", "own_shape"),
    ("C11", "cross_shape"),
    ("C11", "untyped"),
    ("C12", "tagged"),
    ("C12", "helpers"),
    ("C12", "malformed"),
    ("C12", "derived"),
    ("C13", "nodes"),
    ("C13", "syntax"),
    ("C13", "derived"),
    ("C14", "history"),
    ("C14", "orders"),
    ("C15", "laws"),
    ("C15", "accessors"),
    ("C15", "conversions"),
    ("C16", "trees"),
    ("C16", "documents"),
    ("C17", "history"),
    ("C17", "reads"),
    ("C18", "walk"),
    ("C18", "strict"),
    ("C18", "any-text"),
    ("C18", "typed"),
    ("C20", "written"),
    ("C20", "offered"),
    ("C20", "helpers"),
    ("C01", "tag-names"),
];
/// Those whose single cases are small enough to interpret.
const LIGHT: &[(&str, &str)] = &[("C01", "nested-tags"), ("C09", "serializer"), ("C15", "accessors"), ("C03", "strings"), ("C18", "strict"), ("C18", "walk"), ("C20", "written"), ("C20", "offered")];
fn other_checks(c: &mut Case) -> R {
    let (id, sub) = *c.rng.pick(if small() { LIGHT } else { OTHERS });
    let seed = c.rng.next();
    c.nontrivial(&(id, sub, seed));
    let thorough = c.thorough;
    let sub = {
        let p = crate::props::get(id).unwrap();
        match p.subs.into_iter().find(|s| s.name == sub) {
            Some(s) => s,
            None => return fail("harness", format!("no workload {sub} in {id}")),
        }
    };
    let sub = Rc::new(sub);
    balanced(c, &format!("the workload {}/{} with seed {seed}", id, sub.name), &|| {
        let r = run_alone(&sub, seed, thorough);
        // what the workload itself finds is judged by its own check
        Ok(r.is_ok() as u64)
    })?;
    c.ev("workloads of other checks");
    Ok(())
}
