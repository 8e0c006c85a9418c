//! C07: no input and no target type makes parsing crash or hang.
use crate::any::*;
use crate::auto::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::texts;
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer as _, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use serde_yaml::value::TaggedValue;
use serde_yaml::{Deserializer, Error, Mapping, Number, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::error::Error as _;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "valid, mutated, truncated (at every byte), deeply nested, alias-heavy and random byte strings times some fifty target types and visitors that skip, stop or fail, in a separate process with a small stack and a CPU-time watchdog; every error printed, located, moved to another thread; every value printed, compared, cloned, hashed, serialized, merged and dropped; non-trivial = distinct input",
        assumptions: &["target types that recurse without consuming input are excluded", "visitors read a value after each key they take, or fail"],
        subs: vec![
            random("bytes", 6, bytes),
            random("truncated", 3, truncated),
            random("hostile-visitors", 3, hostile),
            random("nests", 2, nests),
            exhaustive("deep", |t| (DEEP_KINDS.len() * if t { 4 } else { 2 }) as u64, deep),
            random("alias-shapes", 2, alias_shapes),
            random("values-into-types", 2, values_into_types),
            exhaustive("auto-traits", |_| table().len() as u64, auto_traits),
            exhaustive("growth", |_| GROWTH.len() as u64, growth),
        ],
        quick_secs: 22.0,
        thorough_secs: 450.0,
        stack_mb: 3,
    }
}

fn use_error(c: &mut Case, e: Error, what: &str) -> R {
    let d = e.to_string();
    let g = format!("{e:?} {e:#?}");
    ensure!(!d.is_empty() && !g.is_empty(), "empty-error", "{what}: an error without a message");
    if let Some(l) = e.location() {
        let _ = (l.index(), l.line(), l.column(), format!("{l:?}"));
        ensure!(l.line() >= 1 && l.column() >= 1, "location-base", "{what}: location {l:?}");
        c.ev("errors with a location");
    }
    let mut s = e.source();
    let mut n = 0;
    while let Some(x) = s {
        let _ = x.to_string();
        s = x.source();
        n += 1;
        ensure!(n < 100, "source-loop", "{what}: endless source chain");
    }
    if c.rng.chance(1, 3000) && !c.solo && threads_ok() {
        let want = d.clone();
        let e = Forced(e);
        let r = std::thread::spawn(move || {
            let e = e.get();
            (e.to_string() == want, drop(e))
        })
        .join();
        ensure!(matches!(r, Ok((true, ()))), "thread", "{what}: error moved to another thread");
        c.ev("errors moved to another thread");
    }
    c.ev("errors used");
    Ok(())
}

/// Everything one may do with a value that parsed.
fn use_value(c: &mut Case, v: &Value) -> R {
    let d = format!("{v:?}");
    let w = v.clone();
    ensure!(w == *v, "clone", "a clone differs: {d}");
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    let _ = v.partial_cmp(&w);
    let _ = serde_yaml::to_string(v).map(|s| s.len());
    let _ = serde_yaml::to_value(v);
    let _ = serde_yaml::from_value::<AnyM>(w);
    let mut w = v.clone();
    let _ = w.apply_merge();
    let _ = (v.as_str(), v.as_f64(), v.as_i64(), v.as_mapping().map(|m| m.len()), v.get("a"), v.get(0), v.get(&w));
    drop(w);
    c.ev("values used");
    Ok(())
}

fn go<T: DeserializeOwned + Debug>(c: &mut Case, b: &[u8]) -> R {
    let name = std::any::type_name::<T>();
    let show = || String::from_utf8_lossy(b).into_owned();
    let r = match guarded(|| serde_yaml::from_slice::<T>(b)) {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("reading {name} panicked: {p}\ninput {:?}", show())),
    };
    match r {
        Ok(v) => {
            let _ = format!("{v:?}");
            c.ev("typed values");
            Ok(())
        }
        Err(e) => use_error(c, e, name),
    }
}

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct St {
    a: Value,
    #[serde(default)]
    b: Option<Box<St>>,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
#[serde(deny_unknown_fields)]
struct Deny {
    a: Option<i8>,
    key: Option<Box<Deny>>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Rec(Vec<Rec>);
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct RecNew(Box<RecNewInner>);
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct RecNewInner(Option<Box<RecNew>>);
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum En {
    A,
    a,
    t(Value),
    Tag(Box<En>),
    T(i32, String),
    S { a: Option<Box<En>> },
    U(()),
    O(Option<Box<En>>),
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
#[serde(tag = "a")]
enum Internal {
    b { k: Option<Value> },
    a,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
#[serde(tag = "a", content = "b")]
enum Adjacent {
    a(Value),
    b,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
#[serde(untagged)]
enum Un {
    N(u128),
    I(i128),
    F(f32),
    B(bool),
    C(char),
    S(String),
    E(En),
    V(Vec<Un>),
    M(HashMap<String, Un>),
    Z(()),
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct With {
    #[serde(with = "serde_yaml::with::singleton_map")]
    a: En,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct WithRec {
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    a: Vec<En>,
}
#[derive(Deserialize, Debug)]
struct UnitS;

/// deserialize_bytes and deserialize_byte_buf
#[derive(Debug)]
struct Bytes;
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, _: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes)
            }
            fn visit_str<E>(self, _: &str) -> Result<Bytes, E> {
                Ok(Bytes)
            }
        }
        d.deserialize_byte_buf(V)
    }
}

fn typed(c: &mut Case, b: &[u8]) -> R {
    match c.rng.below(54) {
        0 => go::<bool>(c, b),
        1 => go::<i8>(c, b),
        2 => go::<u16>(c, b),
        3 => go::<i64>(c, b),
        4 => go::<u64>(c, b),
        5 => go::<i128>(c, b),
        6 => go::<u128>(c, b),
        7 => go::<f32>(c, b),
        8 => go::<f64>(c, b),
        9 => go::<char>(c, b),
        10 => go::<String>(c, b),
        11 => go::<()>(c, b),
        12 => go::<UnitS>(c, b),
        13 => go::<Option<()>>(c, b),
        14 => go::<Option<Option<String>>>(c, b),
        15 => go::<Vec<()>>(c, b),
        16 => go::<Vec<Option<i32>>>(c, b),
        17 => go::<(Value, Value)>(c, b),
        18 => go::<(i32,)>(c, b),
        19 => go::<[u8; 3]>(c, b),
        20 => go::<[Value; 1]>(c, b),
        21 => go::<BTreeMap<String, Value>>(c, b),
        22 => go::<BTreeMap<Option<i32>, Vec<Value>>>(c, b),
        23 => go::<HashMap<(String, bool), ()>>(c, b),
        24 => go::<HashMap<Value, Value>>(c, b),
        25 => go::<St>(c, b),
        26 => go::<Deny>(c, b),
        27 => go::<Rec>(c, b),
        28 => go::<RecNew>(c, b),
        29 => go::<En>(c, b),
        30 => go::<Vec<En>>(c, b),
        31 => go::<BTreeMap<String, En>>(c, b),
        32 => go::<Internal>(c, b),
        33 => go::<Adjacent>(c, b),
        34 => go::<Un>(c, b),
        35 => go::<With>(c, b),
        36 => go::<WithRec>(c, b),
        37 => go::<Bytes>(c, b),
        38 => go::<Mapping>(c, b),
        39 => go::<Vec<Mapping>>(c, b),
        40 => go::<Number>(c, b),
        41 => go::<TaggedValue>(c, b),
        42 => go::<Vec<TaggedValue>>(c, b),
        43 => go::<Option<TaggedValue>>(c, b),
        44 => go::<serde_yaml::Sequence>(c, b),
        45 => go::<Vec<String>>(c, b),
        46 => go::<IgnoredAny>(c, b),
        47 => go::<AnyM>(c, b),
        48 => go::<Vec<IgnoredAny>>(c, b),
        49 => go::<std::time::Duration>(c, b),
        50 => go::<Result<i32, String>>(c, b),
        51 => go::<std::ops::Range<i32>>(c, b),
        52 => go::<std::net::IpAddr>(c, b),
        _ => go::<Option<Box<Vec<Option<Vec<i64>>>>>>(c, b),
    }
}

fn all(c: &mut Case, b: &[u8]) -> R {
    let show = || format!("{:?}", String::from_utf8_lossy(b));
    match guarded(|| serde_yaml::from_slice::<Value>(b)) {
        Err(p) => return fail("panic", format!("reading a Value panicked: {p}\ninput {}", show())),
        Ok(Ok(v)) => match guarded(|| use_value(c, &v)) {
            Ok(r) => r?,
            Err(p) => return fail("panic-value", format!("using a parsed value panicked: {p}\ninput {}", show())),
        },
        Ok(Err(e)) => use_error(c, e, "Value")?,
    }
    for _ in 0..4 {
        typed(c, b)?;
    }
    // the document iterator, bounded
    let r = guarded(|| {
        let mut n = 0;
        let mut errs = Vec::new();
        for d in Deserializer::from_slice(b) {
            let r = match n % 4 {
                0 | 1 => Value::deserialize(d).map(|_| ()),
                2 => IgnoredAny::deserialize(d).map(|_| ()),
                _ => AnyM::deserialize(d).map(|_| ()),
            };
            n += 1;
            if let Err(e) = r {
                errs.push(e);
                if errs.len() > 3 {
                    break;
                }
            }
        }
        (n, errs)
    });
    match r {
        Ok((n, errs)) => {
            c.evn("documents iterated", n);
            for e in errs {
                use_error(c, e, "iterator")?;
            }
            Ok(())
        }
        Err(p) => fail("panic-iterator", format!("iterating documents panicked: {p}\ninput {}", show())),
    }
}

fn bytes(c: &mut Case) -> R {
    let b = texts::bytes(&mut c.rng);
    c.nontrivial(&b);
    c.sample(|| format!("{:?}", String::from_utf8_lossy(&b)));
    all(c, &b)
}

fn truncated(c: &mut Case) -> R {
    let mut t = texts::text(&mut c.rng).into_bytes();
    t.truncate(150);
    c.nontrivial(&t);
    for n in 0..=t.len() {
        all(c, &t[..n])?;
    }
    for n in 0..t.len() {
        // one byte missing
        if c.rng.chance(1, 3) {
            let mut u = t.clone();
            u.remove(n);
            all(c, &u)?;
        }
    }
    Ok(())
}

// ---- visitors that skip, stop or fail at some callback

thread_local! { static LEFT: std::cell::Cell<i64> = std::cell::Cell::new(0); }
struct Hostile(u64);
impl Hostile {
    fn step(&self) -> (u64, bool) {
        let left = LEFT.with(|l| {
            l.set(l.get() - 1);
            l.get()
        });
        (mix(self.0 ^ left as u64), left == 0)
    }
}
impl<'de> DeserializeSeed<'de> for Hostile {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let (r, stop) = self.step();
        if stop {
            return Err(de::Error::custom("hostile seed"));
        }
        let next = Hostile(mix(r));
        match r % 40 {
            0 => d.deserialize_bool(next),
            1 => d.deserialize_i8(next),
            2 => d.deserialize_i16(next),
            3 => d.deserialize_i32(next),
            4 => d.deserialize_i64(next),
            5 => d.deserialize_i128(next),
            6 => d.deserialize_u8(next),
            7 => d.deserialize_u16(next),
            8 => d.deserialize_u32(next),
            9 => d.deserialize_u64(next),
            10 => d.deserialize_u128(next),
            11 => d.deserialize_f32(next),
            12 => d.deserialize_f64(next),
            13 => d.deserialize_char(next),
            14 => d.deserialize_str(next),
            15 => d.deserialize_string(next),
            16 => d.deserialize_bytes(next),
            17 => d.deserialize_byte_buf(next),
            18 => d.deserialize_option(next),
            19 => d.deserialize_unit(next),
            20 => d.deserialize_unit_struct("U", next),
            21 => d.deserialize_newtype_struct("N", next),
            22 => d.deserialize_tuple(2, next),
            23 => d.deserialize_tuple_struct("T", 2, next),
            24 | 25 => d.deserialize_struct("S", &["a", "b"], next),
            26 => d.deserialize_enum("E", &["a", "b", "t"], next),
            27 => d.deserialize_identifier(next),
            28 => d.deserialize_ignored_any(next),
            29 | 30 => d.deserialize_seq(next),
            31 | 32 => d.deserialize_map(next),
            _ => d.deserialize_any(next),
        }
    }
}
impl<'de> Visitor<'de> for Hostile {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something else")
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> {
        self.leaf()
    }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<(), E> {
        self.leaf()
    }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> {
        self.leaf()
    }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<(), E> {
        self.leaf()
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
        self.leaf()
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.leaf()
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.leaf()
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deserialize(d)
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        loop {
            let (r, stop) = self.step();
            if stop {
                return Err(de::Error::custom("hostile sequence"));
            }
            let _ = a.size_hint();
            match r % 12 {
                0 => return Ok(()),
                1 => {
                    if a.next_element::<IgnoredAny>()?.is_none() {
                        // asking again after the end
                        let again = a.next_element::<IgnoredAny>()?;
                        if again.is_some() {
                            return Err(de::Error::custom("element after the end"));
                        }
                        return Ok(());
                    }
                }
                2 => {
                    // an element that fails is skipped over
                    if a.next_element::<u8>().is_err() {
                        return Err(de::Error::custom("gave up"));
                    }
                }
                _ => {
                    if a.next_element_seed(Hostile(mix(r)))?.is_none() {
                        return Ok(());
                    }
                }
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        loop {
            let (r, stop) = self.step();
            if stop {
                return Err(de::Error::custom("hostile map"));
            }
            let _ = a.size_hint();
            match r % 12 {
                0 => return Ok(()),
                1 => {
                    if a.next_entry::<IgnoredAny, IgnoredAny>()?.is_none() {
                        if a.next_key::<IgnoredAny>()?.is_some() {
                            return Err(de::Error::custom("key after the end"));
                        }
                        return Ok(());
                    }
                }
                2 => {
                    if a.next_key::<String>()?.is_none() {
                        return Ok(());
                    }
                    return Err(de::Error::custom("stopped before the value"));
                }
                _ => {
                    if a.next_key_seed(Hostile(mix(r)))?.is_none() {
                        return Ok(());
                    }
                    a.next_value_seed(Hostile(mix(r ^ 1)))?;
                }
            }
        }
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        use de::VariantAccess;
        let (r, stop) = self.step();
        if stop {
            return Err(de::Error::custom("hostile enum"));
        }
        let ((), v) = a.variant_seed(Hostile(14))?;
        match r % 6 {
            0 => v.unit_variant(),
            1 => v.tuple_variant(1, Hostile(mix(r))),
            2 => v.struct_variant(&["a"], Hostile(mix(r))),
            3 => Err(de::Error::custom("variant refused")),
            _ => v.newtype_variant_seed(Hostile(mix(r))),
        }
    }
}
impl Hostile {
    fn leaf<E: de::Error>(self) -> Result<(), E> {
        let (r, stop) = self.step();
        if stop || r % 50 == 0 {
            return Err(E::custom("hostile leaf"));
        }
        Ok(())
    }
}

fn hostile(c: &mut Case) -> R {
    let b = texts::bytes(&mut c.rng);
    c.nontrivial(&b);
    for _ in 0..6 {
        let left = if c.rng.bool() { c.rng.range(1, 40) as i64 } else { 1 << 40 };
        let seed = c.rng.next();
        for route in 0..2 {
            LEFT.with(|l| l.set(left));
            let r = guarded(|| {
                if route == 0 {
                    Hostile(seed).deserialize(Deserializer::from_slice(&b)).err().map(|e| vec![e]).unwrap_or_default()
                } else {
                    let mut out = vec![];
                    for d in Deserializer::from_slice(&b).take(6) {
                        if let Err(e) = Hostile(seed).deserialize(d) {
                            out.push(e);
                        }
                    }
                    out
                }
            });
            match r {
                Ok(errs) => {
                    c.ev("hostile visitors run");
                    for e in errs {
                        use_error(c, e, "hostile visitor")?;
                    }
                }
                Err(p) => return fail("panic-visitor", format!("a visitor made the parser panic: {p}\ninput {:?} seed {seed} left {left}", String::from_utf8_lossy(&b))),
            }
            // the same visitor over an untyped value
            if route == 0 {
                if let Ok(v) = serde_yaml::from_slice::<Value>(&b) {
                    LEFT.with(|l| l.set(left));
                    let r = guarded(|| {
                        let a = Hostile(seed).deserialize(&v).err();
                        LEFT.with(|l| l.set(left));
                        let b = Hostile(seed).deserialize(v).err();
                        (a, b)
                    });
                    match r {
                        Ok((a, b)) => {
                            for e in [a, b].into_iter().flatten() {
                                use_error(c, e, "hostile visitor on a value")?;
                            }
                        }
                        Err(p) => return fail("panic-visitor-value", format!("a visitor made a Value panic: {p}\ninput {:?} seed {seed} left {left}", String::from_utf8_lossy(&b))),
                    }
                }
            }
        }
    }
    Ok(())
}

fn nests(c: &mut Case) -> R {
    let n = match c.rng.below(6) {
        0 => c.rng.range(100, 140),
        1 => c.rng.range(1, 40),
        2 => c.rng.range(250, 260),
        3 => c.rng.range(500, 1500),
        _ => c.rng.range(1500, 6000),
    };
    let open = *c.rng.pick(&["[", "{a: ", "- ", "? ", "{? ", "[[", "!t [", "&a [", "[{k: ", "- ? ", "a:\n", "{[", "|", "!a ", "&b ", "? - ", "[? ", "{a, b: ", "*a [", ">", "'", "\"", "[*a, ", "--- [", "#", "%"]);
    let close = *c.rng.pick(&["", "]", "}", "]]", "}]", "x", "\n", "]}"]);
    let mut s = String::new();
    if c.rng.chance(1, 5) {
        s.push_str("&a x\n---\n");
    }
    if open == "a:\n" {
        for i in 0..n.min(900) {
            for _ in 0..i {
                s.push(' ');
            }
            s.push_str("a:\n");
        }
    } else {
        for _ in 0..n {
            s.push_str(open);
        }
    }
    if c.rng.bool() {
        s.push_str("x");
    }
    for _ in 0..n {
        s.push_str(close);
    }
    c.nontrivial(&s);
    all(c, s.as_bytes())
}

/// What opens a level and what closes it.
const DEEP_KINDS: &[(&str, &str)] = &[
    ("- ", ""), ("[", "]"), ("{a: ", "}"), ("? ", ""), ("{? ", "}"), ("- ? ", ""), ("!t [", "]"), ("&a [", "]"), ("[{k: ", "}]"), ("[s, ", ", s]"),
    ("{k: [], ? ", "}"), ("!t {k: !u [", "]}"), ("[[], ", ", []]"), ("- - ? - ", ""),
];

/// Nests far deeper than any stack could follow: skipping has no limit, and
/// everything else has to give up early.
fn deep(c: &mut Case, idx: u64) -> R {
    let (open, close) = DEEP_KINDS[idx as usize % DEEP_KINDS.len()];
    // the scanner (a dependency) looks at every open flow mapping for each token
    let n = if open.contains('{') { [1500, 3000, 700, 5000] } else { [30_000, 120_000, 60_000, 400_000] }[idx as usize / DEEP_KINDS.len()];
    if small() {
        return Ok(());
    }
    #[derive(Deserialize)]
    struct One {
        a: u8,
    }
    #[derive(Deserialize, Debug)]
    enum En {
        #[allow(dead_code)]
        A(IgnoredAny),
    }
    let nest = format!("{}x{}", open.repeat(n), close.repeat(n));
    c.nontrivial(&(open, n));
    let bad = |what: &str, e: String| fail("deep-skip", format!("{n} levels of {open:?} cannot be skipped {what}: {e}"));
    if let Err(e) = serde_yaml::from_str::<IgnoredAny>(&nest) {
        return bad("alone", e.to_string());
    }
    c.ev("nest skipped whole");
    match serde_yaml::from_str::<One>(&format!("z:\n  {nest}\na: 1\n")) {
        Ok(o) => ensure!(o.a == 1, "deep-skip", "the field after a skipped nest reads {}", o.a),
        Err(e) => return bad("before a field", e.to_string()),
    }
    c.ev("nest skipped before a field");
    match serde_yaml::from_str::<(u8, IgnoredAny, u8)>(&format!("- 1\n- {nest}\n- 2\n")) {
        Ok(t) => ensure!(t.0 == 1 && t.2 == 2, "deep-skip", "the elements around a skipped nest read {} and {}", t.0, t.2),
        Err(e) => return bad("among elements", e.to_string()),
    }
    c.ev("nest skipped among elements");
    if open.starts_with('[') {
        if let Err(e) = serde_yaml::from_str::<En>(&format!("!A {nest}\n")) {
            return bad("in a variant", e.to_string());
        }
        c.ev("nest skipped in a variant");
    }
    match serde_yaml::from_str::<BTreeMap<String, IgnoredAny>>(&format!("base: &b\n  - {nest}\none: *b\ntwo: *b\n")) {
        Ok(m) => ensure!(m.len() == 3, "deep-skip", "{} entries of three", m.len()),
        // an alias of an alias' own nest may be counted as repetition
        Err(e) => ensure!(e.to_string().contains("repetition"), "deep-skip", "aliases of a nest cannot be skipped: {e}"),
    }
    c.ev("nest skipped behind aliases");
    let mut docs = 0;
    for d in serde_yaml::Deserializer::from_str(&format!("--- {}\n---\n- 1\n", if open.contains('[') || open.contains('{') { nest.clone() } else { format!("\n{nest}") })) {
        if let Err(e) = IgnoredAny::deserialize(d) {
            return bad("as a document", e.to_string());
        }
        docs += 1;
    }
    ensure!(docs == 2, "deep-skip", "{docs} documents of two");
    ensure!(serde_yaml::from_str::<Value>(&nest).is_err(), "deep-value", "{n} levels of {open:?} read as a Value");
    ensure!(serde_yaml::from_str::<AnyM>(&nest).is_err(), "deep-value", "{n} levels of {open:?} read as anything");
    c.ev("nest refused as a value");
    Ok(())
}

fn alias_shapes(c: &mut Case) -> R {
    let mut s = String::new();
    let n = c.rng.range(1, 9);
    let flow = c.rng.bool();
    if flow {
        s.push('[');
    }
    for i in 0..n {
        if !flow {
            s.push_str("- ");
        }
        let name = |r: &mut Rng| *r.pick(&["a", "b", "c", "d"]);
        let a = name(&mut c.rng);
        let b = name(&mut c.rng);
        let d = name(&mut c.rng);
        match c.rng.below(9) {
            0 => s.push_str(&format!("&{a} [*{b} , *{d} ]")),
            1 => s.push_str(&format!("&{a} {{*{b} : *{d} }}")),
            2 => s.push_str(&format!("*{a} ")),
            3 => s.push_str(&format!("&{a} [&{b} [&{d} x, *{b} ], *{a} ]")),
            4 => s.push_str(&format!("&{a} !t {{k: *{a} }}")),
            5 => s.push_str(&format!("&{a} [*{b} ,*{b} ,*{b} ,*{b} ,*{b} ,*{b} ,*{b} ,*{b} ,*{b} ]")),
            6 => s.push_str(&format!("&{a} {{<<: *{b} , k{i}: 1}}")),
            7 => s.push_str(&format!("{{*{a} , *{b} : x}}")),
            _ => s.push_str(&format!("&{a} y{i}")),
        }
        s.push_str(if flow { ", " } else { "\n" });
    }
    if flow {
        s.push(']');
    }
    c.nontrivial(&s);
    all(c, s.as_bytes())
}

/// from_value and T::deserialize(&Value) over arbitrary value trees.
fn values_into_types(c: &mut Case) -> R {
    let cfg = GenCfg { nested_tags: c.rng.bool(), ..GenCfg::default() };
    let m = gen_m(&mut c.rng, &cfg);
    c.nontrivial(&m.canon());
    let v = to_val(&m);
    fn into<T: DeserializeOwned + Debug>(c: &mut Case, v: &Value) -> R {
        let name = std::any::type_name::<T>();
        let r = guarded(|| (T::deserialize(v).map(|t| format!("{t:?}")), serde_yaml::from_value::<T>(v.clone()).map(|t| format!("{t:?}"))));
        match r {
            Ok((a, b)) => {
                for e in [a.err(), b.err()].into_iter().flatten() {
                    use_error(c, e, name)?;
                }
                c.ev("values read into types");
                Ok(())
            }
            Err(p) => fail("panic-value-type", format!("reading {name} out of {v:?} panicked: {p}")),
        }
    }
    use_value(c, &v)?;
    into::<St>(c, &v)?;
    into::<En>(c, &v)?;
    into::<Un>(c, &v)?;
    into::<With>(c, &v)?;
    into::<WithRec>(c, &v)?;
    into::<Rec>(c, &v)?;
    into::<Internal>(c, &v)?;
    into::<Adjacent>(c, &v)?;
    into::<Bytes>(c, &v)?;
    into::<Vec<Option<En>>>(c, &v)?;
    into::<TaggedValue>(c, &v)?;
    into::<[Value; 2]>(c, &v)?;
    into::<HashMap<Value, Option<()>>>(c, &v)?;
    into::<u128>(c, &v)?;
    into::<char>(c, &v)?;
    into::<IgnoredAny>(c, &v)
}

/// Errors and values may go to other threads.
fn auto_traits(c: &mut Case, idx: u64) -> R {
    let (name, send, sync) = table()[idx as usize];
    c.nontrivial(name);
    ensure!(send && sync, "auto-traits", "{name} cannot go to another thread (Send {send}, Sync {sync})");
    c.ev("types that may change threads");
    Ok(())
}

// ---- time grows with the size of the input, not with its square

fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // SAFETY: the calling thread's CPU clock (3 on Linux)
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 / 1e9
}
type Make = fn(usize) -> String;
fn lines(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}
fn whole(t: &str) -> u64 {
    serde_yaml::from_str::<Value>(t).map_or(0, |v| serde_yaml::to_string(&v).map_or(0, |s| s.len() as u64))
}
fn typed_len(t: &str) -> u64 {
    serde_yaml::from_str::<std::collections::HashMap<String, u64>>(t).map_or(0, |m| m.len() as u64) + 1
}
fn any_len(t: &str) -> u64 {
    serde_yaml::from_str::<std::collections::HashMap<Value, Value>>(t).map_or(0, |m| m.len() as u64)
}
fn skip(t: &str) -> u64 {
    serde_yaml::from_str::<serde::de::IgnoredAny>(t).is_ok() as u64
}
fn docs(t: &str) -> u64 {
    serde_yaml::Deserializer::from_str(t).map(|d| Value::deserialize(d).is_ok() as u64).sum()
}
fn fails(t: &str) -> u64 {
    serde_yaml::from_str::<Vec<u8>>(t).err().map_or(0, |e| e.to_string().len() as u64)
}
fn reader(t: &str) -> u64 {
    serde_yaml::from_reader::<_, Value>(t.as_bytes()).map_or(0, |v| v.is_sequence() as u64)
}
fn merged(t: &str) -> u64 {
    let mut v: Value = match serde_yaml::from_str(t) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    v.apply_merge().is_ok() as u64
}
fn algebra(t: &str) -> u64 {
    let v: Value = match serde_yaml::from_str(t) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    let w = v.clone();
    hash_of(&v) ^ (v == w) as u64 ^ (v.partial_cmp(&w).is_some()) as u64
}
fn indexing(t: &str) -> u64 {
    let v: Value = match serde_yaml::from_str(t) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    let mut w = Value::Null;
    let mut n = 0;
    for (k, x) in v.as_mapping().into_iter().flatten() {
        n += (v.get(k) == Some(x)) as u64;
        w[k] = x.clone();
        if let Some(s) = k.as_str() {
            n += v.get(s).is_some() as u64 + (v[s] == *x) as u64;
        }
    }
    n + (w == v) as u64
}
fn converting(t: &str) -> u64 {
    let v: Value = match serde_yaml::from_str(t) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    let a = serde_yaml::to_value(&v).is_ok_and(|w| w == v) as u64;
    let b = Value::deserialize(&v).is_ok_and(|w| w == v) as u64;
    a + b + serde_yaml::from_value::<Value>(v).is_ok() as u64
}
fn singletons(t: &str) -> u64 {
    #[derive(serde::Deserialize, serde::Serialize)]
    enum E {
        A(u64),
    }
    #[derive(serde::Deserialize, serde::Serialize)]
    struct Es(#[serde(with = "serde_yaml::with::singleton_map_recursive")] Vec<E>);
    match serde_yaml::from_str::<Es>(t) {
        Ok(e) => serde_yaml::to_string(&e).map_or(0, |s| s.len() as u64),
        Err(_) => 0,
    }
}
fn editing(t: &str) -> u64 {
    let v: serde_yaml::Mapping = match serde_yaml::from_str(t) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    let mut m: serde_yaml::Mapping = v.clone().into_iter().collect();
    m.extend(v.clone());
    let mut n = 0;
    for (k, x) in &v {
        n += m.contains_key(k) as u64;
        *m.entry(k.clone()).or_insert(Value::Null) = x.clone();
    }
    for k in v.keys() {
        n += m.swap_remove(k).is_some() as u64;
    }
    n + m.is_empty() as u64
}
/// name, size, text, what is done with it
const GROWTH: &[(&str, usize, Make, fn(&str) -> u64)] = &[
    ("sequence", 1000, |n| lines(n, |i| format!("- {i}\n")), whole),
    ("flow sequence", 1000, |n| format!("[{}]", lines(n, |i| format!("x{i}, "))), whole),
    ("mapping", 700, |n| lines(n, |i| format!("key{i}: {i}\n")), whole),
    ("mapping with number keys", 700, |n| lines(n, |i| format!("{i}: {i}\n")), whole),
    ("mapping with negative keys", 700, |n| lines(n, |i| format!("-{i}1: {i}\n")), whole),
    ("mapping with float keys", 400, |n| lines(n, |i| format!("{i}.5: {i}\n")), whole),
    ("mapping with whole float keys", 400, |n| lines(n, |i| format!("-{i}e3: {i}\n")), whole),
    ("mapping with sequences of floats as keys", 300, |n| lines(n, |i| format!("[{i}.25]: {i}\n")), whole),
    ("mapping with tagged float keys", 300, |n| lines(n, |i| format!("!t {i}.75: {i}\n")), whole),
    ("mapping with mappings of one value as keys", 300, |n| lines(n, |i| format!("{{a: b, k{i}: a}}: {i}\n")), whole),
    ("mapping with swapped entries as keys", 300, |n| lines(n, |i| format!("{{{i}: a{i}, b{i}: {i}}}: {i}\n")), whole),
    ("mapping with nests as keys", 300, |n| lines(n, |i| format!("[[[{i}]]]: {{a: [{i}]}}\n")), whole),
    ("mapping with long keys", 300, |n| lines(n, |i| format!("{}{i}: {i}\n", "k".repeat(90))), whole),
    ("typed map with float keys read as any", 500, |n| lines(n, |i| format!("{i}.5: {i}\n")), any_len),
    ("sequence keys", 500, |n| lines(n, |i| format!("[{i}, a]: {i}\n")), algebra),
    ("mapping with sequence keys", 500, |n| lines(n, |i| format!("[{i}, a]: {i}\n")), whole),
    ("mapping with mapping keys", 300, |n| lines(n, |i| format!("{{a: {i}, b: {i}}}: {i}\n")), whole),
    ("mapping with tagged keys", 500, |n| lines(n, |i| format!("!t{i} k: {i}\n")), whole),
    ("typed map", 1000, |n| lines(n, |i| format!("key{i}: {i}\n")), typed_len),
    ("plain scalar", 20_000, |n| "word ".repeat(n), whole),
    ("quoted scalar", 20_000, |n| format!("\"{}\"", "ab\\n".repeat(n)), whole),
    ("single quoted scalar", 20_000, |n| format!("'{}'", "it''s ".repeat(n)), whole),
    ("block scalar", 3000, |n| format!("|\n{}", lines(n, |i| format!("  line {i}\n"))), whole),
    ("tags", 500, |n| lines(n, |i| format!("- !t{i} {i}\n")), whole),
    ("anchors", 700, |n| lines(n, |i| format!("- &a{i} {i}\n")), whole),
    ("aliases", 700, |n| format!("- &a x\n{}", "- *a\n".repeat(n)), whole),
    ("anchors and aliases", 500, |n| lines(n, |i| format!("- &a{i} {i}\n- *a{i}\n")), whole),
    ("one anchor again and again", 500, |n| lines(n, |i| format!("- &a {i}\n- *a\n")), whole),
    ("documents", 400, |n| lines(n, |i| format!("---\na: {i}\n")), docs),
    ("documents with anchors", 300, |n| lines(n, |i| format!("---\n- &a {i}\n- *a\n")), docs),
    ("skipped", 1000, |n| lines(n, |i| format!("- {{a: [{i}, 1]}}\n")), skip),
    ("error at the end", 1500, |n| format!("{}- x\n", "- 1\n".repeat(n)), fails),
    ("reader", 1500, |n| lines(n, |i| format!("- {i}\n")), reader),
    ("comments", 3000, |n| format!("{}a: 1\n", "# comment\n".repeat(n)), whole),
    ("escapes", 8000, |n| format!("\"{}\"", "\\u263a".repeat(n)), whole),
    ("wide text", 8000, |n| "\u{65e5}\u{672c} ".repeat(n), whole),
    ("merges", 300, |n| lines(n, |i| format!("- <<: {{a: {i}, b: 2}}\n  a: 1\n")), merged),
    ("one merge of many", 300, |n| format!("<<: [{}]\n", lines(n, |i| format!("{{a{i}: {i}}}, "))), merged),
    ("one wide merge", 500, |n| format!("<<: {{{}}}\n", lines(n, |i| format!("a{i}: {i}, "))), merged),
    ("comparing and hashing floats", 250, |n| lines(n, |i| format!("{i}.5: {i}.5\n")), algebra),
    ("indexing", 250, |n| lines(n, |i| format!("{i}.5: {i}\n'{i}': {i}\n{i}: x\n")), indexing),
    ("converting", 250, |n| lines(n, |i| format!("{i}.5: [{i}]\nk{i}: {i}\n")), converting),
    ("singleton maps", 500, |n| lines(n, |i| format!("- A: {i}\n")), singletons),
    ("collecting a mapping", 250, |n| lines(n, |i| format!("{i}.5: {i}\n")), editing),
    ("comparing and hashing", 500, |n| lines(n, |i| format!("key{i}: {i}\n")), algebra),
];
fn growth(c: &mut Case, idx: u64) -> R {
    let (name, n, make, run) = GROWTH[idx as usize];
    if small() {
        return Ok(());
    }
    const BY: usize = 16;
    let n = n * 4;
    let (a, b) = (make(n), make(n * BY));
    let (mut ta, mut tb) = (f64::MAX, f64::MAX);
    for round in 0..8 {
        for (t, best) in [(&a, &mut ta), (&b, &mut tb)] {
            let at = cpu();
            let done = run(t);
            *best = best.min(cpu() - at);
            ensure!(done != 0, "growth-failed", "{name}: {} bytes could not be processed", t.len());
        }
        // a square would give BY * BY
        if round >= 1 && (tb < ta * (BY * 5) as f64 || tb > 2.0) {
            break;
        }
    }
    if std::env::var_os("HARNESS_GROWTH").is_some() {
        eprintln!("{name}: {:.2} ms -> {:.1} ms, x{:.1}", ta * 1e3, tb * 1e3, tb / ta);
    }
    c.nontrivial(name);
    c.ev("inputs grown sixteenfold");
    ensure!(tb < 0.05 || tb < ta * (BY * 5) as f64, "growth", "{name}: {} bytes take {:.1} ms of CPU, {} bytes take {:.1} ms", a.len(), ta * 1e3, b.len(), tb * 1e3);
    Ok(())
}
