//! C02: typed Rust values survive a round trip through YAML text.
use crate::any::AnyM;
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "random data-model types (nesting up to 4) with random values, in every way an implementation may call the serializer (entry or key/value, known or unknown lengths, skipped None fields, displayed strings), every integer width at its boundaries, all f32 bit patterns on a stride, f64 bit patterns, derived types of every serde representation; text read back typed and untyped and compared with the written tree; non-trivial = distinct (type, value)",
        assumptions: &[
            "options of types that are themselves written as null are outside the domain (YAML cannot tell them apart)",
            "variant names are non-empty and usable as a YAML tag; keys are distinct",
        ],
        subs: vec![random("typed", 8, typed), random("floats", 2, floats), random("integers", 2, integers), random("derived", 3, derived), random("displayed", 2, displayed), random("refused", 1, refused), random("announced", 1, announced)],
        quick_secs: 22.0,
        thorough_secs: 400.0,
        stack_mb: 16,
    }
}

fn typed(c: &mut Case) -> R {
    let cfg = TyCfg { single: c.rng.chance(1, 6), ..TyCfg::default() };
    let d = c.rng.range(1, 4);
    let ty = gen_ty(&mut c.rng, &cfg, d);
    let mut fuel = c.rng.range(3, 40);
    // an untyped value below a recursive single-key-map helper reads tags as enums
    let cfg = TyCfg { tags_in_any: !cfg.single, ..cfg };
    let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
    check(c, &ty, &tv)
}

pub fn check(c: &mut Case, ty: &Ty, tv: &TV) -> R {
    let mode = c.rng.below(32) as u8;
    let mut ex = Expect::new(false, mode & SKIPNONE != 0);
    let want = ex.model(ty, tv);
    let refuse = want.has_nested_tag() || ex.bytes_in_text;
    let v = dynv(ty, tv, mode);
    let ctx = || format!("type {ty:?}\nvalue {tv:?}\nmode {mode}");
    let text = match serde_yaml::to_string(&v) {
        Ok(t) => {
            ensure!(!refuse, "not-refused", "a shape YAML cannot hold was written as {t:?}\n{}", ctx());
            t
        }
        Err(e) => {
            ensure!(refuse, "refused", "serialization failed: {e}\n{}", ctx());
            c.ev("unrepresentable shapes refused");
            return Ok(());
        }
    };
    c.nontrivial(&(format!("{ty:?}"), format!("{tv:?}")));
    c.sample(|| format!("{text:?} from {ty:?}"));
    // the three ways to write, and the other ways to call the serializer
    let mut w = Vec::new();
    serde_yaml::to_writer(&mut w, &v).map_err(|e| Fail { sig: "writer".into(), msg: format!("to_writer failed: {e}\n{}", ctx()) })?;
    ensure!(w == text.as_bytes(), "writer-bytes", "to_writer wrote {:?}, to_string {text:?}", String::from_utf8_lossy(&w));
    let mut s = serde_yaml::Serializer::new(Vec::new());
    v.serialize(&mut s).map_err(|e| Fail { sig: "serializer".into(), msg: format!("Serializer failed: {e}\n{}", ctx()) })?;
    let w = s.into_inner().map_err(|e| Fail { sig: "serializer".into(), msg: format!("into_inner failed: {e}") })?;
    // unwrapping the serializer ends the stream, which may need a document end marker
    let w = w.strip_suffix(b"...\n").filter(|x| x.len() >= text.len()).unwrap_or(&w);
    ensure!(w == text.as_bytes(), "serializer-bytes", "Serializer wrote {:?}, to_string {text:?}", String::from_utf8_lossy(w));
    let other = (mode & SKIPNONE) | (c.rng.below(32) as u8 & !SKIPNONE);
    let alt = serde_yaml::to_string(&dynv(ty, tv, other)).map_err(|e| Fail { sig: "mode-refused".into(), msg: format!("failed in call mode {other}: {e}\n{}", ctx()) })?;
    ensure!(alt == text, "mode-bytes", "call mode {other} wrote {alt:?}, mode {mode} wrote {text:?}\n{}", ctx());
    // untyped reading
    match serde_yaml::from_str::<AnyM>(&text) {
        Ok(AnyM(m)) => ensure!(m.same(&want) || (contains(ty, &|t| matches!(t, Ty::F32)) && m.same32(&want)), "tree", "text {text:?} reads as a different tree: {}\n{}", diff(&want, &m), ctx()),
        Err(e) => return fail("tree-unreadable", format!("text {text:?} cannot be read: {e}\n{}", ctx())),
    }
    if ex.wide_in_value {
        c.ev("wide integer through an untyped value (not read back typed)");
        return Ok(());
    }
    // typed reading
    let r = as_type(ty, || match c.rng.below(4) {
        0 => serde_yaml::from_slice::<Root>(text.as_bytes()),
        1 => serde_yaml::from_reader::<_, Root>(text.as_bytes()),
        2 => {
            let mut it = serde_yaml::Deserializer::from_str(&text);
            let d = it.next().expect("a document");
            let r = Root::deserialize(d);
            assert!(it.next().is_none(), "second document");
            r
        }
        _ => serde_yaml::from_str::<Root>(&text),
    });
    match r {
        Ok(Root(back)) => {
            ensure!(back.same(tv), "changed", "text {text:?}\nreads back as {back:?}\n{}", ctx());
            c.ev("typed values read back");
            Ok(())
        }
        Err(e) => fail("unreadable", format!("text {text:?} cannot be read back: {e}\n{}", ctx())),
    }
}

fn floats(c: &mut Case) -> R {
    let (ty, tv) = if c.rng.bool() {
        // f32 patterns: a stride over all of them, offset by the seed
        let n = if c.thorough { 400 } else { 60 };
        let mut bits = (c.idx as u32).wrapping_mul(2654435761).wrapping_add(c.rng.next() as u32 & 0xff);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(TV::F4(f32::from_bits(bits)));
            bits = bits.wrapping_add(0x9E37_79B9);
        }
        (Ty::Seq(Box::new(Ty::F32)), TV::Seq(v))
    } else {
        let v = (0..60).map(|_| TV::F8(gen_f64(&mut c.rng))).collect();
        (Ty::Seq(Box::new(Ty::F64)), TV::Seq(v))
    };
    c.evn("float bit patterns", 60);
    check(c, &ty, &tv)
}

fn integers(c: &mut Case) -> R {
    let k = gen_ik(&mut c.rng, true);
    let v: Vec<TV> = (0..30).map(|_| gen_ik_value(&mut c.rng, k)).collect();
    c.evn("integers", 30);
    if c.rng.bool() {
        return check(c, &Ty::Seq(Box::new(Ty::Int(k))), &TV::Seq(v));
    }
    // as keys
    let mut seen = std::collections::HashSet::new();
    let m = v.into_iter().filter(|v| seen.insert(format!("{v:?}"))).map(|v| (v, TV::Unit)).collect();
    check(c, &Ty::Map(Box::new(Ty::Int(k)), Box::new(Ty::Unit)), &TV::Map(m))
}

fn refused(c: &mut Case) -> R {
    let cfg = TyCfg { bytes: true, enums: 8, ..TyCfg::default() };
    let ty = gen_ty(&mut c.rng, &cfg, 3);
    let mut fuel = 20;
    let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
    let mut ex = Expect::new(false, false);
    let want = ex.model(&ty, &tv);
    let refuse = want.has_nested_tag() || ex.bytes_in_text;
    let mode = c.rng.below(32) as u8 & !SKIPNONE;
    let r = serde_yaml::to_string(&dynv(&ty, &tv, mode));
    if refuse {
        ensure!(r.is_err(), "not-refused", "a shape YAML cannot hold was written as {:?}\ntype {ty:?}\nvalue {tv:?}", r.unwrap());
        c.nontrivial(&format!("{ty:?}{tv:?}"));
        c.ev("unrepresentable shapes refused");
    } else {
        ensure!(r.is_ok(), "refused", "refused: {}\ntype {ty:?}\nvalue {tv:?}", r.unwrap_err());
    }
    Ok(())
}

// ------------------------------------------------- strings from Display impls

/// A string whose Display implementation writes it in several pieces.
#[derive(Debug, Clone)]
struct Pieces(Vec<String>);
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (i, p) in self.0.iter().enumerate() {
            if p.chars().count() == 1 && i % 2 == 0 {
                std::fmt::Write::write_char(f, p.chars().next().unwrap())?;
            } else {
                f.write_str(p)?;
            }
        }
        Ok(())
    }
}
impl Serialize for Pieces {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
fn gen_pieces(r: &mut Rng) -> Pieces {
    let n = r.below(5);
    let mut v: Vec<String> = Vec::new();
    if r.chance(1, 3) {
        v.push("!".into());
    }
    for _ in 0..n {
        v.push(match r.below(6) {
            0 => "!".into(),
            1 => String::new(),
            2 => gen_string(r),
            3 => gen_int(r).to_string(),
            _ => r.pick(&["a", "key", "-", ": ", "é", "#", "0x", "~", ".", "tag"]).to_string(),
        });
    }
    Pieces(v)
}
/// The form in which a tagged value announces its tag: known finding.
fn looks_like_tag(p: &Pieces) -> bool {
    let w: Vec<&String> = p.0.iter().filter(|s| !s.is_empty()).collect();
    w.len() == 2 && w[0] == "!"
}
fn pstr(p: &Pieces) -> M {
    M::S(p.0.concat())
}
/// Tree of displayed strings, with maps of one entry being the interesting ones.
#[derive(Debug, Clone)]
enum Disp {
    Leaf(Pieces),
    Num(i64),
    Seq(Vec<Disp>),
    Map(Vec<(Pieces, Disp)>, bool),
    Var(Box<Disp>),
}
impl Serialize for Disp {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        match self {
            Disp::Leaf(p) => p.serialize(s),
            Disp::Num(i) => s.serialize_i64(*i),
            Disp::Seq(v) => s.collect_seq(v),
            Disp::Map(v, entries) => {
                let mut m = s.serialize_map(Some(v.len()))?;
                for (k, v) in v {
                    if *entries {
                        m.serialize_entry(k, v)?;
                    } else {
                        m.serialize_key(k)?;
                        m.serialize_value(v)?;
                    }
                }
                m.end()
            }
            Disp::Var(d) => s.serialize_newtype_variant("E", 0, "Var", &**d),
        }
    }
}
impl Disp {
    fn model(&self) -> M {
        match self {
            Disp::Leaf(p) => pstr(p),
            Disp::Num(i) => M::Int(*i as i128),
            Disp::Seq(v) => M::Seq(v.iter().map(Disp::model).collect()),
            Disp::Map(v, _) => M::Map(v.iter().map(|(k, v)| (pstr(k), v.model())).collect()),
            Disp::Var(d) => M::Tag("Var".into(), Box::new(d.model())),
        }
    }
    /// Some lone key of this tree is written exactly like a tag.
    fn ambiguous(&self) -> bool {
        match self {
            Disp::Leaf(_) | Disp::Num(_) => false,
            Disp::Seq(v) => v.iter().any(Disp::ambiguous),
            Disp::Map(v, _) => (v.len() == 1 && looks_like_tag(&v[0].0)) || v.iter().any(|(_, v)| v.ambiguous()),
            Disp::Var(d) => d.ambiguous(),
        }
    }
}
fn gen_disp(r: &mut Rng, d: usize) -> Disp {
    match r.below(if d == 0 { 3 } else { 9 }) {
        0 => Disp::Num(gen_int(r) as i64),
        1 | 2 => Disp::Leaf(gen_pieces(r)),
        3 => Disp::Seq((0..r.below(4)).map(|_| gen_disp(r, d - 1)).collect()),
        4 => {
            let mut seen = std::collections::HashSet::new();
            let v: Vec<_> = (0..r.below(4)).map(|_| (gen_pieces(r), gen_disp(r, d - 1))).filter(|(k, _)| seen.insert(k.0.concat())).collect();
            Disp::Map(v, r.bool())
        }
        5 => match gen_disp(r, d - 1) {
            Disp::Var(x) => Disp::Var(x),
            x => Disp::Var(Box::new(x)),
        },
        _ => Disp::Map(vec![(gen_pieces(r), gen_disp(r, d - 1))], r.bool()),
    }
}
fn displayed(c: &mut Case) -> R {
    let d = if c.rng.chance(1, 3) { Disp::Map(vec![(gen_pieces(&mut c.rng), Disp::Num(1))], true) } else { gen_disp(&mut c.rng, 3) };
    let want = d.model();
    if want.has_nested_tag() {
        return Ok(());
    }
    let sig = if d.ambiguous() { "lone displayed key written as '!' and a rest" } else { "displayed" };
    c.nontrivial(&format!("{d:?}"));
    let text = match serde_yaml::to_string(&d) {
        Ok(t) => t,
        Err(e) => return fail(sig, format!("{d:?} does not serialize: {e}")),
    };
    match serde_yaml::from_str::<AnyM>(&text) {
        Ok(AnyM(m)) => ensure!(m.same(&want), sig, "{d:?} wrote {text:?}, which reads as {m:?}"),
        Err(e) => return fail(sig, format!("{d:?} wrote {text:?}, unreadable: {e}")),
    }
    let v = match serde_yaml::to_value(&d) {
        Ok(v) => v,
        Err(e) => return fail(sig, format!("{d:?} does not convert to a value: {e}")),
    };
    ensure!(from_val(&v).same(&want), sig, "{d:?} converts to {v:?}");
    c.ev("displayed strings read back");
    Ok(())
}

/// Sequences and maps whose announced length is not the number of entries
/// they write (`None`, too many, too few), entry by entry or in two steps.
#[derive(Debug)]
enum Ann {
    Leaf(M),
    Seq(Option<usize>, Vec<Ann>),
    Map(Option<usize>, bool, Vec<(Ann, Ann)>),
    Var(Box<Ann>),
}
impl Ann {
    fn model(&self) -> M {
        match self {
            Ann::Leaf(m) => m.clone(),
            Ann::Seq(_, v) => M::Seq(v.iter().map(Ann::model).collect()),
            Ann::Map(_, _, v) => M::Map(v.iter().map(|(k, x)| (k.model(), x.model())).collect()),
            Ann::Var(x) => M::Tag("V".into(), Box::new(x.model())),
        }
    }
}
impl Serialize for Ann {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self {
            Ann::Leaf(m) => to_val(m).serialize(s),
            Ann::Seq(n, v) => {
                let mut q = s.serialize_seq(*n)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Ann::Map(n, steps, v) => {
                let mut q = s.serialize_map(*n)?;
                for (k, x) in v {
                    if *steps {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    } else {
                        q.serialize_entry(k, x)?;
                    }
                }
                q.end()
            }
            Ann::Var(x) => s.serialize_newtype_variant("E", 0, "V", x.as_ref()),
        }
    }
}
fn gen_ann(r: &mut Rng, depth: usize) -> Ann {
    let n = *r.pick(&[None, Some(0), Some(1), Some(1), Some(2), Some(7)]);
    if depth == 0 || r.chance(1, 4) {
        return Ann::Leaf(gen_scalar(r));
    }
    let k = r.below(4);
    match r.below(5) {
        0 | 1 => Ann::Seq(n, (0..k).map(|_| gen_ann(r, depth - 1)).collect()),
        2 => Ann::Var(Box::new(gen_ann(r, depth - 1))),
        _ => {
            let mut v: Vec<(Ann, Ann)> = vec![];
            for _ in 0..k {
                let key = if r.chance(1, 6) { gen_ann(r, depth - 1) } else { Ann::Leaf(gen_scalar(r)) };
                let m = key.model();
                if !v.iter().any(|(o, _)| to_val(&o.model()) == to_val(&m)) {
                    v.push((key, gen_ann(r, depth - 1)));
                }
            }
            Ann::Map(n, r.bool(), v)
        }
    }
}
fn announced(c: &mut Case) -> R {
    let a = gen_ann(&mut c.rng, 4);
    let want = a.model();
    if want.has_nested_tag() {
        return Ok(());
    }
    c.nontrivial(&format!("{a:?}"));
    let text = match serde_yaml::to_string(&a) {
        Ok(t) => t,
        Err(e) => return fail("announced", format!("{a:?} does not serialize: {e}")),
    };
    match serde_yaml::from_str::<AnyM>(&text) {
        Ok(AnyM(m)) => ensure!(m.same(&want), "announced", "{a:?} wrote {text:?}, which reads as {m:?}"),
        Err(e) => return fail("announced", format!("{a:?} wrote {text:?}, unreadable: {e}")),
    }
    let v = match serde_yaml::to_value(&a) {
        Ok(v) => v,
        Err(e) => return fail("announced", format!("{a:?} does not convert to a value: {e}")),
    };
    ensure!(from_val(&v).same(&want), "announced", "{a:?} converts to {v:?}");
    c.ev("lengths announced, wrongly or not");
    Ok(())
}

// ----------------------------------------------------------- derived types

fn rt<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, v: T) -> R {
    let name = std::any::type_name::<T>();
    let text = match serde_yaml::to_string(&v) {
        Ok(t) => t,
        Err(e) => return fail(&format!("derived {name}"), format!("{v:?} of {name} does not serialize: {e}")),
    };
    c.nontrivial(&(name, &text));
    match serde_yaml::from_str::<T>(&text) {
        Ok(b) => ensure!(b == v, &format!("derived {name}"), "{name}: {v:?} wrote {text:?} reads {b:?}"),
        Err(e) => return fail(&format!("derived {name}"), format!("{name}: {v:?} wrote {text:?}, unreadable: {e}")),
    }
    let text2 = serde_yaml::to_string(&v).unwrap();
    ensure!(text == text2, "unstable", "{name}: two serializations differ");
    c.ev("derived values read back");
    Ok(())
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Plain {
    a: i32,
    #[serde(rename = "the b")]
    b: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    c: Vec<Option<bool>>,
    #[serde(skip_serializing_if = "Option::is_none")]
    d: Option<Box<Plain>>,
    #[serde(flatten)]
    e: Flat,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flat {
    f1: String,
    f2: (u8, char),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct FlatMap {
    id: u64,
    #[serde(flatten)]
    rest: BTreeMap<String, i64>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Ext {
    Unit,
    New(String),
    Opt(Option<i64>),
    Tup(i8, String),
    Struct { x: f64, y: Vec<String> },
    List(Vec<Ext>),
    Map(BTreeMap<String, Ext>),
    UnitPayload(()),
    Nested(Box<Holder>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Holder {
    e: Ext,
    o: Option<Ext>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type")]
enum Int {
    A,
    B { x: String, y: Option<u8> },
    C(FlatMap),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adj {
    A,
    B(String),
    C(i64, bool),
    D { x: Vec<u8> },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Un {
    B(bool),
    I(i64),
    F(f64),
    S(String),
    L(Vec<Un>),
    M(BTreeMap<String, Un>),
}
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Hash)]
enum Key {
    One,
    Two(i32),
    Three { s: String },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Gen<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Unit;

fn ext(r: &mut Rng, d: usize) -> Ext {
    match r.below(if d == 0 { 5 } else { 9 }) {
        0 => Ext::Unit,
        1 => Ext::New(gen_string(r)),
        2 => Ext::Opt(if r.bool() { None } else { Some(gen_int(r) as i64) }),
        3 => Ext::Tup(r.next() as i8, gen_string(r)),
        4 => Ext::UnitPayload(()),
        5 => Ext::Struct { x: r.below(1000) as f64 / 8.0, y: (0..r.below(3)).map(|_| gen_string(r)).collect() },
        6 => Ext::List((0..r.below(4)).map(|_| ext(r, d - 1)).collect()),
        7 => Ext::Map((0..r.below(4)).map(|_| (gen_string(r), ext(r, d - 1))).collect()),
        _ => Ext::Nested(Box::new(Holder { e: ext(r, d - 1), o: if r.bool() { None } else { Some(ext(r, d - 1)) } })),
    }
}
fn plain(r: &mut Rng, d: usize) -> Plain {
    Plain {
        a: r.next() as i32,
        b: if r.bool() { None } else { Some(gen_string(r)) },
        c: (0..r.below(3)).map(|_| if r.bool() { None } else { Some(r.bool()) }).collect(),
        d: if d > 0 && r.bool() { Some(Box::new(plain(r, d - 1))) } else { None },
        e: Flat { f1: gen_string(r), f2: (r.next() as u8, gen_char(r)) },
    }
}
fn un(r: &mut Rng, d: usize) -> Un {
    match r.below(if d == 0 { 4 } else { 6 }) {
        0 => Un::B(r.bool()),
        1 => Un::I(r.next() as i64),
        2 => Un::F(r.below(100) as f64 + 0.5),
        3 => Un::S(gen_string(r)),
        4 => Un::L((0..r.below(3)).map(|_| un(r, d - 1)).collect()),
        _ => Un::M((0..r.below(3)).map(|_| (gen_string(r), un(r, d - 1))).collect()),
    }
}
fn key(r: &mut Rng) -> Key {
    match r.below(3) {
        0 => Key::One,
        1 => Key::Two(r.below(5) as i32),
        _ => Key::Three { s: gen_string(r) },
    }
}

fn derived(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    for _ in 0..3 {
        match r.below(36) {
            0 | 1 => rt(c, plain(r, 2))?,
            2..=4 => rt(c, ext(r, 3))?,
            5 => rt(c, (0..3).map(|_| ext(r, 2)).collect::<Vec<_>>())?,
            6 => rt(c, match r.below(3) {
                0 => Int::A,
                1 => Int::B { x: gen_string(r), y: Some(r.next() as u8) },
                _ => Int::C(FlatMap { id: r.next(), rest: (0..3).map(|i| (format!("k{i}"), r.next() as i64)).collect() }),
            })?,
            7 => rt(c, match r.below(4) {
                0 => Adj::A,
                1 => Adj::B(gen_string(r)),
                2 => Adj::C(r.next() as i64, r.bool()),
                _ => Adj::D { x: (0..r.below(4)).map(|_| r.next() as u8).collect() },
            })?,
            8 | 9 => rt(c, un(r, 3))?,
            10 => rt(c, (0..r.below(4)).map(|_| (key(r), gen_string(r))).collect::<BTreeMap<Key, String>>())?,
            11 => rt(c, (0..r.below(4)).map(|_| (vec![key(r)], key(r))).collect::<BTreeMap<Vec<Key>, Key>>())?,
            12 => rt(c, (0..r.below(4)).map(|_| ((r.bool(), r.next() as u8), Unit)).collect::<BTreeMap<(bool, u8), Unit>>())?,
            13 => rt(c, (0..r.below(5)).map(|_| (gen_char(r), gen_string(r))).collect::<HashMap<char, String>>())?,
            14 => rt(c, (0..r.below(5)).map(|_| gen_string(r)).collect::<BTreeSet<String>>())?,
            15 => rt(c, (0..r.below(5)).map(|_| r.next()).collect::<VecDeque<u64>>())?,
            16 => rt(c, [gen_string(r), gen_string(r)])?,
            17 => rt(c, std::time::Duration::new(r.next() >> 1, r.below(1_000_000_000) as u32))?,
            18 => rt(c, (r.next() as i32)..(r.next() as i32))?,
            19 => rt(c, std::net::Ipv4Addr::from(r.next() as u32))?,
            20 => rt(c, std::net::IpAddr::V6(std::net::Ipv6Addr::from((r.next() as u128) << 64 | r.next() as u128)))?,
            21 => rt(c, std::path::PathBuf::from(gen_string(r)))?,
            22 => rt(c, if r.bool() { Ok::<i32, String>(5) } else { Err(gen_string(r)) })?,
            23 => rt(c, Gen(Gen(gen_string(r))))?,
            24 => rt(c, Gen(key(r)))?,
            25 => rt(c, Gen(Some(key(r))))?,
            26 => rt(c, std::num::NonZeroU16::new(r.range(1, 65535) as u16).unwrap())?,
            27 => rt(c, std::num::Wrapping(r.next() as i16))?,
            28 => rt(c, Cow::<'static, str>::Owned(gen_string(r)))?,
            29 => rt(c, gen_string(r).into_boxed_str())?,
            30 => rt(c, std::net::SocketAddr::from(([127, 0, 0, 1], r.next() as u16)))?,
            31 => rt(c, (Unit, (), Some(1u8), None::<u8>))?,
            32 => rt(c, (0..r.below(5)).map(|_| ((r.next() as i64 as i128) * (r.next() as i64 as i128), r.next() as u128 * r.next() as u128)).collect::<Vec<_>>())?,
            33 => rt(c, (0..r.below(3)).map(|_| (r.bool(), key(r))).collect::<BTreeMap<bool, Key>>())?,
            34 => rt(c, FlatMap { id: r.next(), rest: (0..r.below(4)).map(|_| (format!("x{}", gen_string(r)), r.next() as i64)).collect() })?,
            _ => rt(c, std::ops::Bound::Included(r.next() as u8))?,
        }
    }
    c.rng = r.clone();
    Ok(())
}
