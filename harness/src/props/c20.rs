//! C20: values and helpers are faithful with formats other than YAML.
use crate::dynty::*;
use crate::ensure;
use crate::foreign::*;
use crate::fw::*;
use crate::model::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Serialize, Serializer};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Value};
use std::cell::RefCell;
use std::fmt;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "random untyped values written to a recording serializer that checks the protocol and announced lengths; random trees of the whole data model (every integer width, 32-bit floats, chars, bytes, options, newtypes, borrowed and owned text, duplicate keys, enum variants, lying size hints) offered by a foreign deserializer to Value, Mapping, Number, TaggedValue and Sequence; values and text as sources for a recording visitor; both single-key-map helpers over the foreign format; the foreign side failing at every step with a recognisable error; non-trivial = distinct trees",
        assumptions: &["a newtype or a 128-bit integer that fits 64 bits, offered to a value, may be refused or taken"],
        subs: vec![random("written", 4, written), random("offered", 6, offered), random("source", 4, source), random("helpers", 4, helpers), random("readable", 1, readable)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 32,
    }
}

fn cfg(r: &mut Rng) -> GenCfg {
    GenCfg { nested_tags: r.chance(1, 4), merge_keys: r.chance(1, 8), ..GenCfg::default() }
}

/// What a format that knows no tags gives back.
fn untagged(m: &M) -> M {
    match m {
        M::Seq(v) => M::Seq(v.iter().map(untagged).collect()),
        M::Map(es) => M::Map(es.iter().map(|(k, v)| (untagged(k), untagged(v))).collect()),
        M::Tag(t, v) => M::Map(vec![(M::S(format!("!{t}")), untagged(v))]),
        m => m.clone(),
    }
}
fn distinct_keys(m: &M) -> bool {
    match m {
        M::Seq(v) => v.iter().all(distinct_keys),
        M::Tag(_, v) => distinct_keys(v),
        M::Map(es) => {
            let mut k: Vec<String> = es.iter().map(|(k, _)| k.canon()).collect();
            k.sort();
            k.windows(2).all(|w| w[0] != w[1]) && es.iter().all(|(k, v)| distinct_keys(k) && distinct_keys(v))
        }
        _ => true,
    }
}

/// Serialize once healthy, then with the serializer failing at some steps.
fn record<T: Serialize + ?Sized>(c: &mut Case, what: &str, t: &T, strict: bool) -> Result<F, Fail> {
    let st = St { strict_len: strict, ..St::new(c.rng.next()) };
    let f = match t.serialize(Rec(&st)) {
        Ok(f) => f,
        Err(e) => return fail("write-error", format!("{what} into a foreign serializer: {e}")),
    };
    if let Some(w) = st.verdict() {
        return fail("protocol", format!("{what} into a foreign serializer: {w}\nrecorded {f:?}"));
    }
    let n = st.steps.get();
    c.evn("serializer calls", n);
    for k in 0..n.min(4) {
        let at = if n <= 4 { k + 1 } else { 1 + c.rng.below(n as usize) as u64 };
        let token = c.rng.next() | 1;
        let st = St { strict_len: strict, ..St::failing(1, at, token) };
        match t.serialize(Rec(&st)) {
            Ok(f) => return fail("write-fault", format!("{what}: the serializer failed at call {at} of {n} and the result is {f:?}")),
            Err(e) => ensure!(e.token == token, "write-fault", "{what}: failure at call {at} of {n} came back as {e:?}"),
        }
        if let Some(w) = st.verdict() {
            return fail("write-fault", format!("{what}: {w}"));
        }
        c.ev("serializer fault returned");
    }
    Ok(f)
}

fn written(c: &mut Case) -> R {
    let g = cfg(&mut c.rng);
    let m = gen_m(&mut c.rng, &g);
    let v = to_val(&m);
    let f = record(c, "value", &v, true)?;
    c.nontrivial(&m.canon());
    c.sample(|| format!("{m:?} -> {f:?}"));
    ensure!(same(&f, &calls(&m)), "calls", "value {m:?}\nrecorded {f:?}\nexpected {:?}", calls(&m));
    let part = match &v {
        Value::Number(n) => Some(record(c, "number", n, true)?),
        Value::Mapping(x) => Some(record(c, "mapping", x, true)?),
        Value::Tagged(t) => Some(record(c, "tagged value", &**t, true)?),
        Value::Sequence(s) => Some(record(c, "sequence", s, true)?),
        _ => None,
    };
    if let Some(p) = part {
        c.ev("typed part");
        ensure!(same(&p, &f), "part-calls", "the part of {m:?} was recorded as {p:?}");
    }
    ensure!(from_val(&v).same(&m), "write-changed", "serializing changed the value {m:?} into {v:?}");
    // and back
    let want = untagged(&m);
    if distinct_keys(&want) {
        let st = St::new(c.rng.next());
        match Value::deserialize(Offer { f: &f, st: &st }) {
            Ok(b) => ensure!(from_val(&b).same(&want), "there-and-back", "{m:?}\ncame back as {b:?}"),
            Err(e) => return fail("there-and-back", format!("{m:?}\ncould not be read back: {e}")),
        }
        c.ev("there and back");
    }
    Ok(())
}

/// Read once healthy; where that succeeds, with the source failing at some steps.
fn read<'t, T: Deserialize<'t> + fmt::Debug>(c: &mut Case, f: &'t F, what: &str) -> Result<Result<T, FErr>, Fail> {
    let seed = c.rng.next();
    let st = St::new(seed);
    let r = T::deserialize(Offer { f, st: &st });
    if let Some(w) = st.verdict() {
        return fail("read-protocol", format!("{what} from {f:?}: {w}"));
    }
    let n = st.steps.get();
    c.evn("deserializer calls", n);
    if let Ok(t) = &r {
        for k in 0..n.min(3) {
            let at = if n <= 3 { k + 1 } else { 1 + c.rng.below(n as usize) as u64 };
            let token = c.rng.next() | 1;
            let st = St::failing(seed, at, token);
            match T::deserialize(Offer { f, st: &st }) {
                Ok(x) => return fail("read-fault", format!("{what} from {f:?}: the source failed at call {at} of {n} and the result is {x:?} (healthy: {t:?})")),
                Err(e) => ensure!(e.token == token, "read-fault", "{what} from {f:?}: failure at call {at} of {n} came back as {e:?}"),
            }
            if let Some(w) = st.verdict() {
                return fail("read-fault", format!("{what} from {f:?}: {w}"));
            }
            c.ev("source fault returned");
        }
    }
    Ok(r)
}

fn offered(c: &mut Case) -> R {
    let d = c.rng.range(0, 4);
    let odd = c.rng.chance(1, 3);
    let f = gen_f(&mut c.rng, d, odd);
    let want = meaning(&f);
    c.nontrivial(&format!("{f:?}"));
    c.sample(|| format!("{f:?} -> {want:?}"));
    let got = read::<Value>(c, &f, "Value")?;
    match (&want, &got) {
        (Ok(None), _) => c.ev("left open"),
        (Ok(Some(m)), Ok(v)) => {
            let g = from_val(v);
            ensure!(g.same(m), "offered", "offered {f:?}\nread {g:?}\nexpected {m:?}: {}", diff(m, &g));
            c.ev("taken");
        }
        (Err(()), Err(e)) => {
            ensure!(!e.msg.is_empty(), "offered", "an empty error for {f:?}");
            c.ev("refused");
        }
        (Ok(Some(m)), Err(e)) => return fail("offered", format!("offered {f:?}\nrefused: {e}\nexpected {m:?}")),
        (Err(()), Ok(v)) => return fail("offered", format!("offered {f:?}\ntaken as {v:?}\nexpected an error")),
    }
    // the typed parts take exactly their kind
    let m = match want {
        Ok(None) => return Ok(()),
        Ok(Some(m)) => Some(m),
        Err(()) => None,
    };
    match read::<Number>(c, &f, "Number")? {
        Ok(n) => match &m {
            Some(m @ (M::Int(_) | M::F(_))) if !matches!(f, F::Some(_)) => ensure!(num_model(&n).same(m), "number", "a number from {f:?} is {n:?}"),
            _ => return fail("number", format!("a number from {f:?}: {n:?}")),
        },
        Err(e) => ensure!(!matches!(f, F::I(..) | F::U(..) | F::F4(_) | F::F8(_)) || m.is_none(), "number", "no number from {f:?}: {e}"),
    }
    match read::<Mapping>(c, &f, "Mapping")? {
        Ok(x) => {
            let g = from_val(&Value::Mapping(x));
            let ok = match (&f, &m) {
                (F::Unit, _) => g.same(&M::Map(vec![])),
                (F::Map(_), Some(m)) => g.same(m),
                _ => false,
            };
            ensure!(ok, "mapping", "a mapping from {f:?}: {g:?}");
        }
        Err(e) => ensure!(!matches!(f, F::Map(_)) || m.is_none(), "mapping", "no mapping from {f:?}: {e}"),
    }
    match read::<TaggedValue>(c, &f, "TaggedValue")? {
        Ok(x) => {
            let g = from_val(&Value::Tagged(Box::new(x)));
            ensure!(matches!(f, F::Var(..)) && m.as_ref().is_some_and(|m| g.same(m)), "tagged", "a tagged value from {f:?}: {g:?}");
            c.ev("tagged value");
        }
        Err(e) => ensure!(!matches!(f, F::Var(..)) || m.is_none(), "tagged", "no tagged value from {f:?}: {e}"),
    }
    match read::<Vec<Value>>(c, &f, "Sequence")? {
        Ok(x) => {
            let g = from_val(&Value::Sequence(x));
            ensure!(matches!(f, F::Seq(_)) && m.as_ref().is_some_and(|m| g.same(m)), "sequence", "a sequence from {f:?}: {g:?}");
        }
        Err(e) => ensure!(!matches!(f, F::Seq(_)) || m.is_none(), "sequence", "no sequence from {f:?}: {e}"),
    }
    Ok(())
}

// ------------------------------------------------- values and text as sources

thread_local! { static HINTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }

/// Records what a source says, and whether its hints were exact.
#[derive(Debug)]
struct Heard(F);
impl<'de> Deserialize<'de> for Heard {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(Hear).map(Heard)
    }
}
struct Hear;
struct Name;
impl<'de> DeserializeSeed<'de> for Name {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a name")
            }
            fn visit_str<E>(self, s: &str) -> Result<String, E> {
                Ok(s.into())
            }
        }
        d.deserialize_identifier(V)
    }
}
fn exact(hints: &[Option<usize>], kind: &str) {
    let n = hints.len() - 1;
    for (i, h) in hints.iter().enumerate() {
        if let Some(h) = h {
            if *h != n - i {
                HINTS.with(|x| x.borrow_mut().push(format!("{kind} of {n}: after {i} the source announced {h} more")));
            }
        }
    }
}
impl<'de> Visitor<'de> for Hear {
    type Value = F;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<F, E> {
        Ok(F::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<F, E> {
        Ok(F::I(64, v as i128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<F, E> {
        Ok(F::U(64, v as u128))
    }
    fn visit_i128<E>(self, v: i128) -> Result<F, E> {
        Ok(F::I(128, v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<F, E> {
        Ok(F::U(128, v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<F, E> {
        Ok(F::F8(v))
    }
    fn visit_char<E>(self, v: char) -> Result<F, E> {
        Ok(F::C(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<F, E> {
        Ok(F::S(v.into()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<F, E> {
        Ok(F::Bytes(v.into()))
    }
    fn visit_unit<E>(self) -> Result<F, E> {
        Ok(F::Unit)
    }
    fn visit_none<E>(self) -> Result<F, E> {
        Ok(F::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<F, D::Error> {
        Ok(F::Some(Box::new(Heard::deserialize(d)?.0)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<F, D::Error> {
        Ok(F::New(Box::new(Heard::deserialize(d)?.0)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<F, A::Error> {
        let mut out = Vec::new();
        let mut hints = vec![a.size_hint()];
        while let Some(Heard(f)) = a.next_element()? {
            out.push(f);
            hints.push(a.size_hint());
        }
        exact(&hints, "sequence");
        Ok(F::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<F, A::Error> {
        let mut out = Vec::new();
        let mut hints = vec![a.size_hint()];
        while let Some(Heard(k)) = a.next_key()? {
            let Heard(v) = a.next_value()?;
            out.push((k, v));
            hints.push(a.size_hint());
        }
        exact(&hints, "map");
        Ok(F::Map(out))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<F, A::Error> {
        let (n, v) = a.variant_seed(Name)?;
        let Heard(f) = v.newtype_variant()?;
        Ok(F::Var(n, Some(Box::new(f))))
    }
}
/// Calls with tags as variants.
fn said(m: &M) -> F {
    match m {
        M::Seq(v) => F::Seq(v.iter().map(said).collect()),
        M::Map(es) => F::Map(es.iter().map(|(k, v)| (said(k), said(v))).collect()),
        M::Tag(t, v) => F::Var(t.clone(), Some(Box::new(said(v)))),
        m => calls(m),
    }
}

fn source(c: &mut Case) -> R {
    let g = GenCfg { nested_tags: false, ..cfg(&mut c.rng) };
    let m = gen_m(&mut c.rng, &g);
    let v = to_val(&m);
    let want = said(&m);
    c.nontrivial(&m.canon());
    HINTS.with(|h| h.borrow_mut().clear());
    let text = serde_yaml::to_string(&v).map_err(|e| Fail { sig: "source".into(), msg: format!("{m:?}: {e}") })?;
    let heard: [(&str, Result<Heard, String>); 6] = [
        ("&Value", Heard::deserialize(&v).map_err(|e| e.to_string())),
        ("Value", Heard::deserialize(v.clone()).map_err(|e| e.to_string())),
        ("from_value", serde_yaml::from_value(v.clone()).map_err(|e| e.to_string())),
        ("into_deserializer", Heard::deserialize(v.clone().into_deserializer()).map_err(|e| e.to_string())),
        ("text", serde_yaml::from_str(&text).map_err(|e| e.to_string())),
        ("document", Heard::deserialize(serde_yaml::Deserializer::from_str(&text)).map_err(|e| e.to_string())),
    ];
    for (what, h) in heard {
        match h {
            Ok(Heard(f)) => ensure!(same(&f, &want), "said", "{what} of {m:?}\nsaid     {f:?}\nexpected {want:?}"),
            Err(e) => return fail("said", format!("{what} of {m:?}: {e}")),
        }
        c.ev("source heard");
    }
    if let Value::Number(n) = &v {
        for h in [Heard::deserialize(n.clone()), Heard::deserialize(n)] {
            match h {
                Ok(Heard(f)) => ensure!(same(&f, &want), "said", "number {n:?} said {f:?}"),
                Err(e) => return fail("said", format!("number {n:?}: {e}")),
            }
        }
        c.ev("number heard");
    }
    if let Value::Tagged(t) = &v {
        for h in [Heard::deserialize((**t).clone()), Heard::deserialize(&**t)] {
            match h {
                Ok(Heard(f)) => ensure!(same(&f, &want), "said", "tagged value {t:?} said {f:?}"),
                Err(e) => return fail("said", format!("tagged value {t:?}: {e}")),
            }
        }
        c.ev("tagged value heard");
    }
    let bad = HINTS.with(|h| h.borrow_mut().pop());
    ensure!(bad.is_none(), "hint", "{}\n{m:?}", bad.unwrap_or_default());
    Ok(())
}

// --------------------------------------------- the helpers over other formats

fn norm(f: &F) -> M {
    match f {
        F::Unit | F::None => M::Null,
        F::Some(f) | F::New(f) => norm(f),
        F::Bool(b) => M::Bool(*b),
        F::I(_, i) => M::Int(*i),
        F::U(_, u) => match i128::try_from(*u) {
            Ok(i) => M::Int(i),
            Err(_) => M::S(format!("\u{1}u128 {u}")),
        },
        F::F4(f) => M::F(*f as f64),
        F::F8(f) => M::F(*f),
        F::C(c) => M::S(c.to_string()),
        F::S(s) => M::S(s.clone()),
        F::Bytes(b) => M::Seq(b.iter().map(|b| M::Int(*b as i128)).collect()),
        F::Seq(fs) => M::Seq(fs.iter().map(norm).collect()),
        F::Map(es) => M::Map(es.iter().map(|(k, v)| (norm(k), norm(v))).collect()),
        F::Var(n, None) => M::S(n.clone()),
        F::Var(n, Some(f)) => M::Tag(n.clone(), Box::new(norm(f))),
    }
}
/// As a format without variants of its own hands it out.
fn plain(f: &F) -> F {
    match f {
        F::Some(f) => F::Some(Box::new(plain(f))),
        F::New(f) => F::New(Box::new(plain(f))),
        F::Seq(fs) => F::Seq(fs.iter().map(plain).collect()),
        F::Map(es) => F::Map(es.iter().map(|(k, v)| (plain(k), plain(v))).collect()),
        F::Var(n, None) => F::S(n.clone()),
        F::Var(n, Some(f)) => F::Var(n.clone(), Some(Box::new(plain(f)))),
        f => f.clone(),
    }
}

fn helpers(c: &mut Case) -> R {
    let cfg = TyCfg { enums: 8, any: false, tags_in_any: false, ..TyCfg::default() };
    let d = c.rng.range(1, 3);
    let e = gen_enum(&mut c.rng, &cfg, d);
    let ty = match c.rng.below(5) {
        0 => Ty::Single(Box::new(e)),
        1 => Ty::Single(Box::new(Ty::Opt(Box::new(e)))),
        2 => Ty::SingleRec(Box::new(e)),
        _ => Ty::SingleRec(Box::new(gen_ty(&mut c.rng, &cfg, d))),
    };
    let ty = match c.rng.below(4) {
        0 => Ty::Struct("S", &["a", "b"], vec![ty, Ty::Str]),
        1 => Ty::Tuple(vec![Ty::Bool, ty]),
        2 => Ty::Seq(Box::new(ty)),
        _ => ty,
    };
    let mut fuel = 12;
    let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
    let mode = c.rng.below(32) as u8;
    let mut ex = Expect::new(false, mode & SKIPNONE != 0);
    let want = ex.model(&ty, &tv);
    c.nontrivial(&format!("{ty:?} {tv:?}"));
    let ctx = || format!("type {ty:?}\nvalue {tv:?}\nmode {mode}");
    let f = record(c, "helper", &dynv(&ty, &tv, mode), false).map_err(|f| Fail { sig: f.sig, msg: format!("{}\n{}", f.msg, ctx()) })?;
    let got = norm(&f);
    // below a tuple or struct variant with the one-level helper, other enums pass
    // through an untyped value, which announces its tag as a value does
    let (g, w) = (untagged(&got), untagged(&want));
    ensure!(g.same32(&w), "helper-shape", "recorded {f:?}\nexpected {want:?}: {}\n{}", diff(&w, &g), ctx());
    if !got.same32(&want) {
        ensure!(!contains(&ty, &|t| matches!(t, Ty::SingleRec(_))), "helper-shape", "a tag where none belongs: recorded {f:?}\n{}", ctx());
        c.ev("other enum held by an untyped value");
        return Ok(());
    }
    if ex.wide_in_value {
        c.ev("wide integer below a helper");
        return Ok(());
    }
    let f = plain(&f);
    let seed = c.rng.next();
    let st = St::new(seed);
    match as_type(&ty, || Root::deserialize(Offer { f: &f, st: &st })) {
        Ok(Root(b)) => ensure!(b.same(&tv), "helper-changed", "offered {f:?}\nread back as {b:?}\n{}", ctx()),
        Err(e) => return fail("helper-unreadable", format!("offered {f:?}\ncannot be read back: {e}\n{}", ctx())),
    }
    if let Some(w) = st.verdict() {
        return fail("helper-protocol", format!("{w}\noffered {f:?}\n{}", ctx()));
    }
    let n = st.steps.get();
    for _ in 0..3 {
        let at = 1 + c.rng.below(n as usize) as u64;
        let token = c.rng.next() | 1;
        let st = St::failing(seed, at, token);
        match as_type(&ty, || Root::deserialize(Offer { f: &f, st: &st })) {
            Ok(Root(x)) => return fail("helper-fault", format!("the source failed at call {at} of {n} and the result is {x:?}\noffered {f:?}\n{}", ctx())),
            Err(e) => ensure!(e.token == token, "helper-fault", "failure at call {at} of {n} came back as {e:?}\noffered {f:?}\n{}", ctx()),
        }
        c.ev("source fault through a helper");
    }
    c.ev("helper there and back");
    Ok(())
}

// ------------------------------------------------------------ is_human_readable

#[derive(Debug, PartialEq, Clone, Copy)]
struct Human(Option<bool>);
impl Serialize for Human {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let h = s.is_human_readable();
        s.serialize_bool(h)
    }
}
impl<'de> Deserialize<'de> for Human {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let h = d.is_human_readable();
        <de::IgnoredAny as Deserialize>::deserialize(d)?;
        Ok(Human(Some(h)))
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Hm {
    New(Human),
    List(Vec<Human>),
    Opt(Option<Human>),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct One {
    h: Human,
    #[serde(with = "serde_yaml::with::singleton_map")]
    e: Hm,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct All {
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    e: Vec<(Hm, Option<Human>)>,
    h: Human,
}
fn flags(f: &F, out: &mut Vec<bool>) {
    match f {
        F::Bool(b) => out.push(*b),
        F::Some(f) | F::New(f) | F::Var(_, Some(f)) => flags(f, out),
        F::Seq(v) => v.iter().for_each(|f| flags(f, out)),
        F::Map(es) => es.iter().for_each(|(_, v)| flags(v, out)),
        _ => {}
    }
}

/// A type that writes itself differently for people and machines finds out
/// what it is written to, also through the helpers.
fn readable(c: &mut Case) -> R {
    let human = c.rng.bool();
    let h = Human(None);
    let gen = |r: &mut Rng| match r.below(3) {
        0 => Hm::New(h),
        1 => Hm::List(vec![h; r.below(3)]),
        _ => Hm::Opt(if r.bool() { Some(h) } else { None }),
    };
    let one = One { h, e: gen(&mut c.rng) };
    let n = c.rng.below(3);
    let all = All { e: (0..n).map(|_| (gen(&mut c.rng), Some(h))).collect(), h };
    c.nontrivial(&format!("{human} {one:?} {all:?}"));
    macro_rules! go {
        ($t:ty, $x:expr) => {{
            let x: &$t = &$x;
            let st = St { human, strict_len: false, ..St::new(1) };
            let f = match x.serialize(Rec(&st)) {
                Ok(f) => f,
                Err(e) => return fail("readable", format!("{x:?}: {e}")),
            };
            let mut fl = Vec::new();
            flags(&f, &mut fl);
            ensure!(!fl.is_empty() && fl.iter().all(|b| *b == human), "readable", "is_human_readable is {human}, heard {fl:?} in {x:?}");
            let f = plain(&f);
            let st = St { human, ..St::new(c.rng.next()) };
            let back = match <$t>::deserialize(Offer { f: &f, st: &st }) {
                Ok(b) => b,
                Err(e) => return fail("readable", format!("{x:?} offered as {f:?}: {e}")),
            };
            let s = format!("{back:?}");
            ensure!(!s.contains(&format!("Some({})", !human)), "readable", "is_human_readable is {human}, heard {s}");
            // YAML is for people
            let v = serde_yaml::to_value(x).map_err(|e| Fail { sig: "readable".into(), msg: e.to_string() })?;
            let t = serde_yaml::to_string(x).map_err(|e| Fail { sig: "readable".into(), msg: e.to_string() })?;
            ensure!(!t.contains("false"), "readable", "text is not human readable to {x:?}: {t}");
            ensure!(!format!("{v:?}").contains("false"), "readable", "a value is not human readable to {x:?}: {v:?}");
            let backs = [serde_yaml::from_str::<$t>(&t), serde_yaml::from_value::<$t>(v.clone()), <$t>::deserialize(&v)];
            for b in backs {
                match b {
                    Ok(b) => ensure!(!format!("{b:?}").contains("Some(false)"), "readable", "reading YAML is not human readable: {b:?}"),
                    Err(e) => return fail("readable", format!("{x:?}: {e}\n{t}")),
                }
            }
            c.ev("readability heard");
        }};
    }
    go!(One, one);
    go!(All, all);
    Ok(())
}
