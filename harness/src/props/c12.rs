//! C12: enum representations: tags by default, single-key maps on request.
use crate::any::AnyM;
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::props::c02;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use serde_yaml::Value;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "random enum types (unit, newtype, tuple, struct variants; awkward variant names; nested in options, sequences, tuples, maps, structs) with random values, tagged and under both single-key-map helpers, written to text and to untyped values; shape compared with an independent model; malformed representations of each must be rejected from text and from values; non-trivial = distinct (type, value) or (type, malformed form)",
        assumptions: &[
            "variant names are non-empty and usable as a YAML tag",
            "an enum with data directly inside a newtype variant (nested tags) is refused in text, as C02 states",
            "integers outside 64 bits below a tuple or struct variant with a helper are out of the domain (held by an untyped value on the way)",
        ],
        subs: vec![random("tagged", 3, tagged), random("helpers", 5, helpers), random("malformed", 5, malformed), random("derived", 3, derived)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

/// The untyped-value route: shape, and reading back from owned and borrowed.
fn value_route(c: &mut Case, ty: &Ty, tv: &TV) -> R {
    let mode = c.rng.below(32) as u8;
    let mut ex = Expect::new(true, mode & SKIPNONE != 0);
    let want = ex.model(ty, tv);
    let ctx = || format!("type {ty:?}\nvalue {tv:?}\nmode {mode}");
    let v = match serde_yaml::to_value(dynv(ty, tv, mode)) {
        Ok(v) => v,
        Err(e) => return fail("to_value", format!("to_value failed: {e}\n{}", ctx())),
    };
    let got = from_val(&v);
    ensure!(got.same(&want), "value-shape", "to_value gives a different tree: {}\n{}", diff(&want, &got), ctx());
    if ex.wide_in_value {
        return Ok(());
    }
    let r = if c.rng.bool() { as_type(ty, || serde_yaml::from_value::<Root>(v.clone())) } else { as_type(ty, || Root::deserialize(&v)) };
    match r {
        Ok(Root(b)) => ensure!(b.same(tv), "value-changed", "value {v:?}\nreads back as {b:?}\n{}", ctx()),
        Err(e) => return fail("value-unreadable", format!("value {v:?} cannot be read back: {e}\n{}", ctx())),
    }
    c.ev("value route round trips");
    Ok(())
}

fn wrap(r: &mut Rng, t: Ty) -> Ty {
    match r.below(9) {
        0 => Ty::Opt(Box::new(t)),
        1 => Ty::Seq(Box::new(t)),
        2 => Ty::Tuple(vec![t, Ty::Str]),
        3 => Ty::Map(Box::new(Ty::Str), Box::new(t)),
        4 => Ty::Map(Box::new(t), Box::new(Ty::Int(IK::U8))),
        5 => Ty::Struct("S", &["f", "g"], vec![Ty::Bool, t]),
        6 => Ty::New("N", Box::new(t)),
        7 => Ty::TupleS("T", vec![t, Ty::Unit]),
        _ => t,
    }
}

fn tagged(c: &mut Case) -> R {
    let cfg = TyCfg { enums: 8, any: false, ..TyCfg::default() };
    let d = c.rng.range(1, 3);
    let e = gen_enum(&mut c.rng, &cfg, d);
    let ty = wrap(&mut c.rng, e);
    let ty = if c.rng.bool() && !nullable(&ty) { wrap(&mut c.rng, ty) } else { ty };
    let mut fuel = 12;
    let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
    c02::check(c, &ty, &tv)?;
    value_route(c, &ty, &tv)
}

fn helpers(c: &mut Case) -> R {
    let cfg = TyCfg { enums: 8, any: false, tags_in_any: false, ..TyCfg::default() };
    let d = c.rng.range(1, 3);
    let e = gen_enum(&mut c.rng, &cfg, d);
    let ty = match c.rng.below(5) {
        0 => Ty::Single(Box::new(e)),
        1 => Ty::Single(Box::new(Ty::Opt(Box::new(e)))),
        2 => Ty::SingleRec(Box::new(e)),
        _ => {
            let mut t = wrap(&mut c.rng, e);
            if c.rng.bool() && !nullable(&t) {
                t = wrap(&mut c.rng, t);
            }
            Ty::SingleRec(Box::new(t))
        }
    };
    // the helper sits somewhere inside a larger value
    let ty = match c.rng.below(4) {
        0 => Ty::Struct("S", &["a", "b"], vec![ty, Ty::Str]),
        1 => Ty::Tuple(vec![Ty::Bool, ty]),
        2 => Ty::Seq(Box::new(ty)),
        _ => ty,
    };
    let mut fuel = 14;
    let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
    if contains(&ty, &|t| matches!(t, Ty::SingleRec(_))) {
        let m = Expect::new(false, false).model(&ty, &tv);
        assert!(!m.has_tag(), "harness: the model has tags");
        c.ev("recursive helper");
    } else {
        c.ev("helper at one level");
    }
    c02::check(c, &ty, &tv)?;
    value_route(c, &ty, &tv)
}

/// A payload that no value of this type has.
fn wrong(r: &mut Rng, t: &Ty) -> Option<M> {
    Some(match t {
        Ty::Bool => r.pick(&[M::s("yes"), M::Int(1), M::Seq(vec![M::Bool(true)]), M::Map(vec![])]).clone(),
        Ty::Int(_) => r.pick(&[M::s("x"), M::Bool(true), M::F(1.5), M::Seq(vec![M::Int(1)]), M::Map(vec![])]).clone(),
        Ty::F32 | Ty::F64 => r.pick(&[M::s("x"), M::Bool(true), M::Seq(vec![M::F(1.0)]), M::Map(vec![])]).clone(),
        Ty::Char => r.pick(&[M::s("ab"), M::s(""), M::Seq(vec![M::s("a")]), M::Map(vec![])]).clone(),
        Ty::Str => r.pick(&[M::Seq(vec![M::s("a")]), M::Map(vec![(M::s("a"), M::Null)])]).clone(),
        Ty::Unit => r.pick(&[M::s("x"), M::Int(1), M::Seq(vec![M::Int(1)]), M::Map(vec![(M::s("a"), M::Null)])]).clone(),
        Ty::Seq(_) => r.pick(&[M::s("x"), M::Int(1), M::Bool(true), M::Map(vec![(M::s("a"), M::Null)])]).clone(),
        Ty::Map(..) => r.pick(&[M::s("x"), M::Int(1), M::Bool(true), M::Seq(vec![M::Int(1)])]).clone(),
        _ => return None,
    })
}

fn malformed(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let cfg = TyCfg { enums: 1, any: false, tags_in_any: false, wide: false, ..TyCfg::default() };
    let depth = r.range(0, 2);
    let e = gen_enum(r, &cfg, depth);
    let Ty::Enum(_, names, vts) = &e else { unreachable!() };
    // a null, boolean or number in the text may be the plain spelling of a variant
    if names.iter().any(|n| !matches!(crate::resolve::plain_ref(n), crate::resolve::Res::Val(M::S(_)))) {
        return Ok(());
    }
    let helper = r.below(3); // 0: tags, 1: singleton_map, 2: recursive
    let i = r.below(names.len());
    let name = names[i].to_string();
    // content as each route writes it
    let mut good_fuel = 8;
    let good = |r: &mut Rng, i: usize, fuel: &mut usize| -> M {
        let t = match helper {
            0 => e.clone(),
            1 => Ty::Single(Box::new(e.clone())),
            _ => Ty::SingleRec(Box::new(e.clone())),
        };
        // force variant i
        let p = match &vts[i] {
            VTy::Unit => TV::Unit,
            VTy::New(t) => gen_tv(r, t, &cfg, fuel),
            VTy::Tuple(ts) | VTy::Struct(_, ts) => TV::Fields(ts.iter().map(|t| gen_tv(r, t, &cfg, fuel)).collect()),
        };
        match Expect::new(true, false).model(&t, &TV::Var(i, Box::new(p))) {
            M::Map(mut v) if v.len() == 1 && helper != 0 => v.pop().unwrap().1,
            M::Tag(_, v) if helper == 0 => *v,
            m => m,
        }
    };
    let unit = matches!(vts[i], VTy::Unit);
    let unknown = loop {
        let s = gen_tag(r);
        if !names.contains(&&s[..]) {
            break s;
        }
    };
    let rep = |n: &str, p: M| if helper == 0 { M::Tag(n.to_string(), Box::new(p)) } else { M::Map(vec![(M::s(n), p)]) };
    let (what, m): (&'static str, M) = match r.below(14) {
        0 if helper != 0 => ("no entry", M::Map(vec![])),
        0 => ("an untagged empty map", M::Map(vec![])),
        1 | 2 if helper != 0 => {
            let j = r.below(names.len());
            let a = (M::s(&name), good(r, i, &mut good_fuel));
            let b = if names[j] == name { (M::s(&unknown), M::Null) } else { (M::s(names[j]), good(r, j, &mut good_fuel)) };
            let mut v = vec![a, b];
            if r.bool() {
                v.reverse();
            }
            if r.chance(1, 4) {
                v.push((M::Int(3), M::Null));
            }
            ("several entries", M::Map(v))
        }
        1 | 2 => {
            let p = good(r, i, &mut good_fuel);
            if matches!(p, M::S(_)) || p.has_tag() && !p.is_container() {
                return Ok(());
            }
            ("content without a tag", p)
        }
        3 => ("unknown variant", rep(&unknown, good(r, i, &mut good_fuel))),
        4 => ("unknown plain variant", M::s(&unknown)),
        5 | 6 if !unit => ("data variant as a plain string", M::s(&name)),
        5 | 6 if helper != 0 => ("unit variant as a map", M::Map(vec![(M::s(&name), M::Null)])),
        5 | 6 => ("unit variant with content", M::Tag(name.clone(), Box::new(M::Int(1)))),
        7 => ("null", M::Null),
        8 => ("not an enum at all", r.pick(&[M::Int(0), M::Bool(true), M::F(1.0), M::Seq(vec![]), M::Seq(vec![M::s(&name)]), M::Seq(vec![M::s(&name), M::Int(1)])]).clone()),
        9 if helper != 0 && !unit => ("a tag instead of a single-key map", M::Tag(name.clone(), Box::new(good(r, i, &mut good_fuel)))),
        9 if helper == 0 && !unit => ("a single-key map instead of a tag", M::Map(vec![(M::s(&name), good(r, i, &mut good_fuel))])),
        10 if helper != 0 => ("a key that is no string", M::Map(vec![(r.pick(&[M::Int(0), M::Null, M::Bool(true), M::Seq(vec![])]).clone(), M::Null)])),
        _ => match &vts[i] {
            VTy::Unit => return Ok(()),
            VTy::New(t) => match wrong(r, t) {
                Some(m) => ("wrong content", rep(&name, m)),
                None => return Ok(()),
            },
            VTy::Tuple(_) => {
                let M::Seq(mut v) = good(r, i, &mut good_fuel) else { return Ok(()) };
                match r.below(3) {
                    0 => {
                        v.push(M::Int(1));
                        ("tuple too long", rep(&name, M::Seq(v)))
                    }
                    1 if !v.is_empty() => {
                        v.pop();
                        ("tuple too short", rep(&name, M::Seq(v)))
                    }
                    _ => ("wrong content", rep(&name, r.pick(&[M::Int(1), M::s("x"), M::Map(vec![(M::s("a"), M::Null)])]).clone())),
                }
            }
            VTy::Struct(_, ts) => {
                let M::Map(mut v) = good(r, i, &mut good_fuel) else { return Ok(()) };
                match r.below(3) {
                    0 if !v.is_empty() => {
                        let k = r.below(v.len());
                        if nullable_opt(&ts[k]) {
                            return Ok(());
                        }
                        v.remove(k);
                        ("missing field", rep(&name, M::Map(v)))
                    }
                    1 => ("wrong content", rep(&name, M::s("x"))),
                    _ => ("wrong content", rep(&name, M::Int(1))),
                }
            }
        },
    };
    c.rng = r.clone();
    let ty = match helper {
        0 => e.clone(),
        1 => Ty::Single(Box::new(e.clone())),
        _ => Ty::SingleRec(Box::new(e.clone())),
    };
    // sometimes deeper inside a sequence or a field
    let (ty, m) = match c.rng.below(4) {
        0 => (Ty::Seq(Box::new(ty)), M::Seq(vec![m])),
        1 => (Ty::Struct("S", &["f", "g"], vec![Ty::Bool, ty]), M::Map(vec![(M::s("f"), M::Bool(true)), (M::s("g"), m)])),
        _ => (ty, m),
    };
    if m.has_nested_tag() {
        return Ok(());
    }
    c.nontrivial(&(format!("{ty:?}"), m.canon()));
    let v = to_val(&m);
    let text = match serde_yaml::to_string(&v) {
        Ok(t) => t,
        Err(e) => return fail("value-refused", format!("{m:?} does not serialize: {e}")),
    };
    c.sample(|| format!("{what}: {text:?}"));
    let flow = flow_text(&m);
    for (route, r) in [
        ("text", as_type(&ty, || serde_yaml::from_str::<Root>(&text))),
        ("flow text", as_type(&ty, || serde_yaml::from_str::<Root>(flow.as_deref().unwrap_or(&text)))),
        ("owned value", as_type(&ty, || serde_yaml::from_value::<Root>(v.clone()))),
        ("borrowed value", as_type(&ty, || Root::deserialize(&v))),
    ] {
        ensure!(r.is_err(), &format!("accepted: {what}"), "{what} accepted from {route} as {:?}\ntext {text:?} flow {flow:?}\nmodel {m:?}\ntype {ty:?}", r.unwrap());
        c.ev("malformed forms rejected");
    }
    match what {
        "several entries" => c.ev("several entries"),
        "no entry" => c.ev("no entry"),
        "unknown variant" | "unknown plain variant" => c.ev("unknown variant"),
        _ => {}
    }
    Ok(())
}
fn nullable_opt(t: &Ty) -> bool {
    matches!(t, Ty::Opt(_)) || matches!(t, Ty::New(_, t) if nullable_opt(t))
}
/// The same tree spelled in flow style with double quotes.
pub fn flow_text(m: &M) -> Option<String> {
    fn q(s: &str, o: &mut String) {
        o.push('"');
        for ch in s.chars() {
            match ch {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (' '..='~').contains(&c) => o.push(c),
                c if (c as u32) < 0x100 => o.push_str(&format!("\\x{:02x}", c as u32)),
                c if (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push_str(&format!("\\U{:08x}", c as u32)),
            }
        }
        o.push('"');
    }
    fn go(m: &M, o: &mut String) -> Option<()> {
        match m {
            M::Null => o.push('~'),
            M::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            M::Int(i) => o.push_str(&i.to_string()),
            M::F(f) if f.is_finite() => o.push_str(&format!("{f:e}")),
            M::F(_) => return None,
            M::S(s) => q(s, o),
            M::Seq(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    go(x, o)?;
                }
                o.push(']');
            }
            M::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    o.push_str("? ");
                    go(k, o)?;
                    o.push_str(" : ");
                    go(x, o)?;
                }
                o.push('}');
            }
            M::Tag(t, v) => {
                if !t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '.') {
                    return None;
                }
                o.push('!');
                o.push_str(t);
                o.push(' ');
                go(v, o)?;
            }
        }
        Some(())
    }
    let mut o = String::new();
    go(m, &mut o)?;
    o.push('\n');
    Some(o)
}

// ------------------------------------------------------------ derived types
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum E {
    Unit,
    #[serde(rename = "another-unit")]
    Unit2,
    New(String),
    Num(i64),
    Opt(Option<u8>),
    Tup(u8, Option<String>),
    Struct {
        x: i64,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        y: Option<String>,
    },
    List(Vec<E>),
    Map(BTreeMap<String, E>),
    Deep(Box<Holder>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Holder {
    one: E,
    two: Option<E>,
    three: Vec<Option<E>>,
    four: (E, u8),
    five: BTreeMap<String, E>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Once {
    #[serde(with = "singleton_map")]
    a: E,
    #[serde(with = "singleton_map")]
    b: Option<E>,
    c: E,
    #[serde(default, with = "singleton_map", skip_serializing_if = "Option::is_none")]
    d: Option<E>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Every {
    #[serde(with = "singleton_map_recursive")]
    a: E,
    #[serde(with = "singleton_map_recursive")]
    b: Option<E>,
    #[serde(with = "singleton_map_recursive")]
    h: Holder,
    #[serde(with = "singleton_map_recursive")]
    v: Vec<BTreeMap<String, (E, Option<E>)>>,
    after: E,
}
/// Written as a map by hand: what the helpers have to produce.
fn model(e: &E, rec: u8) -> M {
    let deep = if rec == 2 { 2 } else { 0 };
    let opt_s = |s: &Option<String>| s.as_ref().map_or(M::Null, |s| M::s(s));
    let (n, p) = match e {
        E::Unit => return M::s("Unit"),
        E::Unit2 => return M::s("another-unit"),
        E::New(s) => ("New", M::s(s)),
        E::Num(i) => ("Num", M::Int(*i as i128)),
        E::Opt(o) => ("Opt", o.map_or(M::Null, |o| M::Int(o as i128))),
        E::Tup(a, b) => ("Tup", M::Seq(vec![M::Int(*a as i128), opt_s(b)])),
        E::Struct { x, y } => {
            let mut v = vec![(M::s("x"), M::Int(*x as i128))];
            if let Some(y) = y {
                v.push((M::s("y"), M::s(y)));
            }
            ("Struct", M::Map(v))
        }
        E::List(l) => ("List", M::Seq(l.iter().map(|e| model(e, deep)).collect())),
        E::Map(l) => ("Map", M::Map(l.iter().map(|(k, e)| (M::s(k), model(e, deep))).collect())),
        E::Deep(h) => ("Deep", holder_model(h, deep)),
    };
    if rec > 0 {
        M::Map(vec![(M::s(n), p)])
    } else {
        M::Tag(n.into(), Box::new(p))
    }
}
fn opt_model(e: &Option<E>, rec: u8) -> M {
    e.as_ref().map_or(M::Null, |e| model(e, rec))
}
fn holder_model(h: &Holder, d: u8) -> M {
    M::Map(vec![
        (M::s("one"), model(&h.one, d)),
        (M::s("two"), opt_model(&h.two, d)),
        (M::s("three"), M::Seq(h.three.iter().map(|e| opt_model(e, d)).collect())),
        (M::s("four"), M::Seq(vec![model(&h.four.0, d), M::Int(h.four.1 as i128)])),
        (M::s("five"), M::Map(h.five.iter().map(|(k, e)| (M::s(k), model(e, d))).collect())),
    ])
}
fn gen_e(r: &mut Rng, d: usize) -> E {
    match r.below(if d == 0 { 7 } else { 10 }) {
        0 => E::Unit,
        1 => E::Unit2,
        2 => E::New(gen_string(r)),
        3 => E::Num(r.next() as i64),
        4 => E::Opt(if r.bool() { None } else { Some(r.next() as u8) }),
        5 => E::Tup(r.next() as u8, if r.bool() { None } else { Some(gen_string(r)) }),
        6 => E::Struct { x: r.next() as i64, y: if r.bool() { None } else { Some(gen_string(r)) } },
        7 => E::List((0..r.below(4)).map(|_| gen_e(r, d - 1)).collect()),
        8 => E::Map((0..r.below(3)).map(|_| (gen_string(r), gen_e(r, d - 1))).collect()),
        _ => E::Deep(Box::new(gen_holder(r, d - 1))),
    }
}
fn gen_opt(r: &mut Rng, d: usize) -> Option<E> {
    if r.chance(1, 3) {
        None
    } else {
        Some(gen_e(r, d))
    }
}
fn gen_holder(r: &mut Rng, d: usize) -> Holder {
    Holder {
        one: gen_e(r, d),
        two: gen_opt(r, d),
        three: (0..r.below(3)).map(|_| gen_opt(r, d)).collect(),
        four: (gen_e(r, d), r.next() as u8),
        five: (0..r.below(3)).map(|_| (gen_string(r), gen_e(r, d))).collect(),
    }
}
fn shape<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, v: &T, want: &M) -> R {
    let text = match serde_yaml::to_string(v) {
        Ok(t) => t,
        Err(e) => return fail("derived-refused", format!("{v:?} does not serialize: {e}")),
    };
    c.nontrivial(&text);
    c.sample(|| text.clone());
    match serde_yaml::from_str::<AnyM>(&text) {
        Ok(AnyM(m)) => ensure!(m.same(want), "derived-shape", "{v:?}\nwrote {text:?}\n{}", diff(want, &m)),
        Err(e) => return fail("derived-unreadable", format!("{v:?}\nwrote {text:?}, unreadable: {e}")),
    }
    match serde_yaml::from_str::<T>(&text) {
        Ok(b) => ensure!(b == *v, "derived-changed", "{v:?}\nwrote {text:?}\nread {b:?}"),
        Err(e) => return fail("derived-unreadable", format!("{v:?}\nwrote {text:?}, unreadable: {e}")),
    }
    let val: Value = match serde_yaml::to_value(v) {
        Ok(t) => t,
        Err(e) => return fail("derived-value", format!("{v:?} not converted: {e}")),
    };
    let m = from_val(&val);
    ensure!(m.same(want), "derived-value-shape", "{v:?}\nconverted to {val:?}\n{}", diff(want, &m));
    for (route, back) in [("borrowed", T::deserialize(&val)), ("owned", serde_yaml::from_value::<T>(val.clone()))] {
        match back {
            Ok(b) => ensure!(b == *v, "derived-value-changed", "{v:?}\nvia {route} value {val:?}\nread {b:?}"),
            Err(e) => return fail("derived-value-unreadable", format!("{v:?}\n{route} value {val:?}, unreadable: {e}")),
        }
    }
    c.ev("derived helpers agree with the model");
    Ok(())
}
fn derived(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let once = Once { a: gen_e(r, 2), b: gen_opt(r, 2), c: gen_e(r, 2), d: gen_opt(r, 1) };
    let mut m = vec![(M::s("a"), model(&once.a, 1)), (M::s("b"), opt_model(&once.b, 1)), (M::s("c"), model(&once.c, 0))];
    if once.d.is_some() {
        m.push((M::s("d"), opt_model(&once.d, 1)));
    }
    let every = Every {
        a: gen_e(r, 2),
        b: gen_opt(r, 2),
        h: gen_holder(r, 1),
        v: (0..r.below(3)).map(|_| (0..r.below(3)).map(|_| (gen_string(r), (gen_e(r, 1), gen_opt(r, 1)))).collect()).collect(),
        after: gen_e(r, 1),
    };
    let me = M::Map(vec![
        (M::s("a"), model(&every.a, 2)),
        (M::s("b"), opt_model(&every.b, 2)),
        (M::s("h"), holder_model(&every.h, 2)),
        (M::s("v"), M::Seq(every.v.iter().map(|b| M::Map(b.iter().map(|(k, (e, o))| (M::s(k), M::Seq(vec![model(e, 2), opt_model(o, 2)]))).collect())).collect())),
        (M::s("after"), model(&every.after, 0)),
    ]);
    c.rng = r.clone();
    shape(c, &once, &M::Map(m))?;
    shape(c, &every, &me)
}
