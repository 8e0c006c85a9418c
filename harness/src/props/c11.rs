//! C11: untyped values, typed values and text agree with each other.
use crate::any::AnyM;
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use serde::de::{DeserializeOwned, IgnoredAny, IntoDeserializer};
use serde::{Deserialize, Serialize};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Sequence, Value};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "random data-model types and values through to_value / from_value / &Value / text (own-shape), random types against values of other shapes, mutated values and arbitrary trees (cross-shape: owned against borrowed, and agreement with text where both succeed), every integer boundary against every numeric type, untyped to untyped, From conversions; non-trivial = distinct (type, value)",
        assumptions: &[
            "32-bit floats are compared as 32-bit floats between trees (text holds the shortest decimal spelling)",
            "integers outside 64 bits inside an untyped value are out of the domain",
        ],
        subs: vec![random("own_shape", 5, own_shape), random("cross_shape", 6, cross_shape), random("numbers", 3, numbers), random("untyped", 3, untyped), random("from", 1, conversions), random("std_types", 1, std_types)],
        quick_secs: 22.0,
        thorough_secs: 350.0,
        stack_mb: 16,
    }
}

fn own_shape(c: &mut Case) -> R {
    let cfg = TyCfg { bytes: true, single: c.rng.chance(1, 8), ..TyCfg::default() };
    let cfg = TyCfg { tags_in_any: !cfg.single, ..cfg };
    let d = c.rng.range(1, 4);
    let ty = gen_ty(&mut c.rng, &cfg, d);
    let mut fuel = c.rng.range(3, 40);
    let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
    let mode = c.rng.below(32) as u8;
    let mut ex = Expect::new(true, mode & SKIPNONE != 0);
    let want = ex.model(&ty, &tv);
    let ctx = || format!("type {ty:?}\nvalue {tv:?}\nmode {mode}");
    let v = match serde_yaml::to_value(dynv(&ty, &tv, mode)) {
        Ok(v) => v,
        Err(e) => return fail("to_value", format!("to_value failed: {e}\n{}", ctx())),
    };
    let got = from_val(&v);
    ensure!(got.same(&want), "to_value-tree", "to_value gives a different tree: {}\n{}", diff(&want, &got), ctx());
    c.nontrivial(&(format!("{ty:?}"), format!("{tv:?}")));
    c.sample(|| format!("{v:?} as {ty:?}"));
    if ex.wide_in_value {
        c.ev("wide integer (not read back)");
        return Ok(());
    }
    let mut tx = Expect::new(false, mode & SKIPNONE != 0);
    let twant = tx.model(&ty, &tv);
    let f32s = contains(&ty, &|t| matches!(t, Ty::F32));
    if !contains(&ty, &|t| matches!(t, Ty::Bytes)) && !twant.has_nested_tag() {
        let direct = serde_yaml::to_string(&dynv(&ty, &tv, mode)).map_err(|e| Fail { sig: "to_string".into(), msg: format!("to_string failed: {e}\n{}", ctx()) })?;
        let parsed = match serde_yaml::from_str::<Value>(&direct) {
            Ok(p) => from_val(&p),
            Err(e) => return fail("text-unreadable", format!("text {direct:?} unreadable: {e}\n{}", ctx())),
        };
        ensure!(parsed.same(&got) || (f32s && parsed.same32(&got)), "value-vs-text", "to_value differs from parsing the text {direct:?}: {}\n{}", diff(&got, &parsed), ctx());
        let via = serde_yaml::to_string(&v).map_err(|e| Fail { sig: "value-to_string".into(), msg: format!("value {v:?}: to_string failed: {e}\n{}", ctx()) })?;
        match as_type(&ty, || serde_yaml::from_str::<Root>(&via)) {
            Ok(Root(b)) => ensure!(b.same(&tv), "value-text-changed", "the value's text {via:?} reads as {b:?}\n{}", ctx()),
            Err(e) => return fail("value-text-unreadable", format!("the value's text {via:?} unreadable: {e}\n{}", ctx())),
        }
        match as_type(&ty, || serde_yaml::from_str::<Root>(&direct)) {
            Ok(Root(b)) => ensure!(b.same(&tv), "text-changed", "text {direct:?} reads as {b:?}\n{}", ctx()),
            Err(e) => return fail("text-unreadable", format!("text {direct:?} unreadable: {e}\n{}", ctx())),
        }
        c.ev("compared with the text route");
    }
    let routes: [(&str, Result<Root, serde_yaml::Error>); 3] = [
        ("owned", as_type(&ty, || serde_yaml::from_value::<Root>(v.clone()))),
        ("borrowed", as_type(&ty, || Root::deserialize(&v))),
        ("owned deserializer", as_type(&ty, || Root::deserialize(v.clone().into_deserializer()))),
    ];
    for (n, r) in routes {
        match r {
            Ok(Root(b)) => ensure!(b.same(&tv), &format!("{n}-changed"), "{n} value {v:?} reads as {b:?}\n{}", ctx()),
            Err(e) => return fail(&format!("{n}-unreadable"), format!("{n} value {v:?} cannot be read: {e}\n{}", ctx())),
        }
    }
    ensure!(from_val(&v).same(&want), "borrow-changed-value", "reading through a reference changed the value");
    c.ev("own-shape values read back three ways");
    Ok(())
}

/// A tree close to `m` but with something changed.
fn mutate(r: &mut Rng, m: &M) -> M {
    if r.chance(1, 5) || !(m.is_container() || matches!(m, M::Tag(..))) {
        return match r.below(12) {
            0 => M::Null,
            1 => M::Bool(r.bool()),
            2 => M::Int(gen_int(r)),
            3 => M::F(gen_f64(r)),
            4 => M::S(gen_string(r)),
            5 => M::Seq(vec![m.clone()]),
            6 => M::Map(vec![(M::s("a"), m.clone())]),
            7 => M::Tag(gen_tag(r), Box::new(m.clone())),
            8 => M::Seq(vec![]),
            9 => M::Map(vec![]),
            10 => match m {
                M::Int(i) => M::s(&i.to_string()),
                M::S(s) => M::Seq(s.bytes().map(|b| M::Int(b as i128)).collect()),
                M::Null => M::s(""),
                _ => M::s("x"),
            },
            _ => match m {
                M::Int(i) => M::F(*i as f64),
                M::F(f) if f.is_finite() && f.abs() < 1e15 => M::Int(*f as i128),
                M::Null => M::Map(vec![]),
                _ => M::Bool(true),
            },
        };
    }
    match m {
        M::Seq(v) => {
            let mut v = v.clone();
            if v.is_empty() || r.chance(1, 4) {
                let i = r.below(v.len() + 1);
                v.insert(i, M::Int(r.below(300) as i128));
            } else {
                let i = r.below(v.len());
                match r.below(3) {
                    0 => {
                        v.remove(i);
                    }
                    _ => v[i] = mutate(r, &v[i]),
                }
            }
            M::Seq(v)
        }
        M::Map(v) => {
            let mut v = v.clone();
            if v.is_empty() || r.chance(1, 5) {
                v.push((M::S(format!("extra{}", r.below(9))), M::Int(1)));
            } else {
                let i = r.below(v.len());
                match r.below(5) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v[i].0 = mutate(r, &v[i].0),
                    2 => v.reverse(),
                    _ => v[i].1 = mutate(r, &v[i].1),
                }
            }
            let mut seen = std::collections::HashSet::new();
            v.retain(|(k, _)| seen.insert(k.canon()));
            M::Map(v)
        }
        M::Tag(t, x) => match r.below(4) {
            0 => (**x).clone(),
            1 => M::Tag(gen_tag(r), x.clone()),
            _ => M::Tag(t.clone(), Box::new(mutate(r, x))),
        },
        _ => unreachable!(),
    }
}

fn cross_shape(c: &mut Case) -> R {
    let cfg = TyCfg { bytes: true, single: c.rng.chance(1, 5), enums: 4, ..TyCfg::default() };
    let d = c.rng.range(0, 3);
    let ty = gen_ty(&mut c.rng, &cfg, d);
    let mut fuel = c.rng.range(2, 14);
    let m = match c.rng.below(8) {
        0 => gen_m(&mut c.rng, &GenCfg { nested_tags: true, max_depth: 3, ..GenCfg::default() }),
        1 => gen_scalar(&mut c.rng),
        2 => {
            let t2 = gen_ty(&mut c.rng, &cfg, 2);
            let tv = gen_tv(&mut c.rng, &t2, &cfg, &mut fuel);
            Expect::new(true, c.rng.bool()).model(&t2, &tv)
        }
        _ => {
            let tv = gen_tv(&mut c.rng, &ty, &cfg, &mut fuel);
            let mut m = Expect::new(true, c.rng.bool()).model(&ty, &tv);
            for _ in 0..c.rng.range(1, 2) {
                m = mutate(&mut c.rng, &m);
            }
            m
        }
    };
    let v = to_val(&m);
    let ctx = || format!("type {ty:?}\nvalue {v:?}");
    c.nontrivial(&(format!("{ty:?}"), m.canon()));
    let own = as_type(&ty, || serde_yaml::from_value::<Root>(v.clone()));
    let bor = as_type(&ty, || Root::deserialize(&v));
    ensure!(from_val(&v).same(&m), "borrow-changed-value", "reading through a reference changed the value\n{}", ctx());
    match (&own, &bor) {
        (Ok(Root(a)), Ok(Root(b))) => {
            ensure!(a.same(b), "owned-vs-borrowed", "owned reads {a:?}, borrowed {b:?}\n{}", ctx());
            c.ev("both read");
        }
        (Err(a), Err(b)) => {
            ensure!(a.to_string() == b.to_string(), "owned-vs-borrowed-error", "owned fails with {a}, borrowed with {b}\n{}", ctx());
            c.ev("both fail alike");
        }
        (Ok(Root(a)), Err(b)) => return fail("owned-vs-borrowed", format!("owned reads {a:?}, borrowed fails: {b}\n{}", ctx())),
        (Err(a), Ok(Root(b))) => return fail("owned-vs-borrowed", format!("owned fails: {a}; borrowed reads {b:?}\n{}", ctx())),
    }
    // where the text also reads as this type it gives the same value
    if contains(&ty, &|t| matches!(t, Ty::F32)) || m.has_nested_tag() {
        return Ok(());
    }
    if let Ok(Root(a)) = own {
        let text = match serde_yaml::to_string(&v) {
            Ok(t) => t,
            Err(e) => return fail("value-refused", format!("the value does not serialize: {e}\n{}", ctx())),
        };
        match as_type(&ty, || serde_yaml::from_str::<Root>(&text)) {
            Ok(Root(b)) => {
                ensure!(a.same(&b), "value-vs-text", "the value reads as {a:?}, its text {text:?} as {b:?}\n{}", ctx());
                c.ev("text reads the same");
            }
            Err(_) => c.ev("only the value reads"),
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- numbers

fn near(r: &mut Rng) -> i128 {
    let b: i128 = match r.below(10) {
        0 => 1 << r.below(64),
        1 => -(1 << r.below(64)),
        2 => u64::MAX as i128,
        3 => i64::MIN as i128,
        4 => i64::MAX as i128,
        5 => 10i128.pow(r.below(20) as u32),
        6 => r.below(300) as i128,
        7 => -(r.below(300) as i128),
        8 => r.next() as i64 as i128,
        _ => r.next() as i128,
    };
    (b + r.below(5) as i128 - 2).clamp(i64::MIN as i128, u64::MAX as i128)
}

fn one_target<T: DeserializeOwned + Serialize + PartialEq + std::fmt::Debug + Copy + 'static>(c: &mut Case, i: i128, exact: Option<T>) -> R {
    let v = Value::Number(int_number(i));
    let name = std::any::type_name::<T>();
    let text = format!("{i}\n");
    let tagged = Value::Tagged(Box::new(TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: v.clone() }));
    let n = int_number(i);
    let rs: [(&str, Result<T, serde_yaml::Error>); 6] = [
        ("owned", serde_yaml::from_value(v.clone())),
        ("borrowed", T::deserialize(&v)),
        ("number", T::deserialize(n.clone())),
        ("number reference", T::deserialize(&n)),
        ("text", serde_yaml::from_str(&text)),
        ("tagged", serde_yaml::from_value(tagged)),
    ];
    for (route, r) in rs {
        match (r, exact) {
            (Ok(a), Some(b)) => ensure!(a == b, "integer-changed", "{i} as {name} via {route} gives {a:?}"),
            (Err(_), None) => {}
            (Ok(a), None) => return fail("integer-wrapped", format!("{i} does not fit {name}, but via {route} it reads {a:?}")),
            (Err(e), Some(_)) => return fail("integer-refused", format!("{i} as {name} via {route}: {e}")),
        }
    }
    if let Some(b) = exact {
        let back = serde_yaml::to_value(b).map_err(|e| Fail { sig: "to_value".into(), msg: format!("{b:?} of {name}: {e}") })?;
        ensure!(from_val(&back).same(&M::Int(i)), "to_value-integer", "{b:?} of {name} becomes {back:?}");
    }
    c.ev("integer against a target type");
    Ok(())
}
fn numbers(c: &mut Case) -> R {
    for _ in 0..6 {
        let i = near(&mut c.rng);
        c.nontrivial(&i);
        c.sample(|| format!("{i} into every integer type"));
        macro_rules! t {
            ($($t:ty)*) => { $( one_target::<$t>(c, i, <$t>::try_from(i).ok())?; )* };
        }
        t!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
        let v = Value::Number(int_number(i));
        let want = if i >= 0 { i as u64 as f64 } else { i as i64 as f64 };
        for (route, r) in [("owned", serde_yaml::from_value::<f64>(v.clone())), ("borrowed", f64::deserialize(&v)), ("text", serde_yaml::from_str::<f64>(&i.to_string()))] {
            match r {
                Ok(f) => ensure!(f == want, "integer-as-float", "{i} as f64 via {route} gives {f:?}"),
                Err(e) => return fail("integer-as-float", format!("{i} as f64 via {route}: {e}")),
            }
        }
        // other kinds
        ensure!(bool::deserialize(&v).is_err() && serde_yaml::from_value::<bool>(v.clone()).is_err(), "integer-as-bool", "{i} read as bool");
        ensure!(char::deserialize(&v).is_err() && serde_yaml::from_value::<char>(v.clone()).is_err(), "integer-as-char", "{i} read as char");
        ensure!(<()>::deserialize(&v).is_err() && serde_yaml::from_value::<()>(v.clone()).is_err(), "integer-as-unit", "{i} read as unit");
    }
    // floats: bit for bit as f64, the nearest as f32, never an integer
    for _ in 0..4 {
        let f = gen_f64(&mut c.rng);
        c.nontrivial(&f.to_bits());
        let v = Value::from(f);
        let n = Number::from(f);
        let same = |a: f64| a.to_bits() == f.to_bits() || (a.is_nan() && f.is_nan());
        let ys = serde_yaml::to_string(&v).map_err(|e| Fail { sig: "to_string".into(), msg: format!("{f:?}: {e}") })?;
        for (route, r) in [
            ("owned", serde_yaml::from_value::<f64>(v.clone())),
            ("borrowed", f64::deserialize(&v)),
            ("number", f64::deserialize(n.clone())),
            ("number reference", f64::deserialize(&n)),
            ("text", serde_yaml::from_str::<f64>(&ys)),
        ] {
            match r {
                Ok(a) => ensure!(same(a), "float-changed", "{f:?} via {route} gives {a:?}"),
                Err(e) => return fail("float-refused", format!("{f:?} via {route}: {e}")),
            }
        }
        for (route, r) in [("owned", serde_yaml::from_value::<f32>(v.clone())), ("borrowed", f32::deserialize(&v))] {
            match r {
                Ok(a) => ensure!(a.to_bits() == (f as f32).to_bits() || (a.is_nan() && f.is_nan()), "float-as-f32", "{f:?} as f32 via {route} gives {a:?}"),
                Err(e) => return fail("float-refused", format!("{f:?} as f32 via {route}: {e}")),
            }
        }
        macro_rules! no {
            ($($t:ty)*) => { $(
                for (route, r) in [("owned", serde_yaml::from_value::<$t>(v.clone())), ("borrowed", <$t>::deserialize(&v)), ("text", serde_yaml::from_str::<$t>(&ys))] {
                    ensure!(r.is_err(), "float-as-integer", "{f:?} via {route} gives the {} {:?}", stringify!($t), r.unwrap());
                }
            )* };
        }
        no!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
        let back = serde_yaml::to_value(f).unwrap();
        ensure!(from_val(&back).same(&M::F(f)), "to_value-float", "{f:?} becomes {back:?}");
        let g = gen_f32(&mut c.rng);
        let back = serde_yaml::to_value(g).unwrap();
        ensure!(from_val(&back).same(&M::F(g as f64)), "to_value-float", "f32 {g:?} becomes {back:?}");
        match f32::deserialize(&back) {
            Ok(h) => ensure!(h.to_bits() == g.to_bits() || (h.is_nan() && g.is_nan()), "float-changed", "f32 {g:?} comes back as {h:?}"),
            Err(e) => return fail("float-refused", format!("f32 {g:?}: {e}")),
        }
        c.ev("float against every target type");
    }
    Ok(())
}

// ------------------------------------------------------- untyped to untyped

fn untyped(c: &mut Case) -> R {
    let nested_tags = c.rng.chance(1, 3);
    let m = gen_m(&mut c.rng, &GenCfg { nested_tags, ..GenCfg::default() });
    let v = to_val(&m);
    c.nontrivial(&m.canon());
    let check = |what: &str, r: Result<Value, serde_yaml::Error>| -> R {
        match r {
            Ok(w) => {
                let got = from_val(&w);
                ensure!(got.same(&m), &format!("untyped {what}"), "{what} changed the value: {}", diff(&m, &got));
                ensure!(w == v, &format!("untyped {what}"), "{what}: {w:?} != {v:?}");
                Ok(())
            }
            Err(e) => fail(&format!("untyped {what}"), format!("{what} of {v:?} failed: {e}")),
        }
    };
    check("to_value", serde_yaml::to_value(&v))?;
    check("to_value of a value by value", serde_yaml::to_value(v.clone()))?;
    check("from_value", serde_yaml::from_value(v.clone()))?;
    check("borrowed", Value::deserialize(&v))?;
    check("into_deserializer", Value::deserialize(v.clone().into_deserializer()))?;
    check("clone", Ok(v.clone()))?;
    c.ev("untyped identities");
    // what a self-describing reader sees
    for (route, r) in [("owned", serde_yaml::from_value::<AnyM>(v.clone())), ("borrowed", AnyM::deserialize(&v))] {
        match r {
            Ok(AnyM(g)) => ensure!(g.same(&m), "untyped any", "{route} value hands out a different tree: {}", diff(&m, &g)),
            Err(e) => return fail("untyped any", format!("{route} value {v:?}: {e}")),
        }
    }
    ensure!(serde_yaml::from_value::<IgnoredAny>(v.clone()).is_ok() && IgnoredAny::deserialize(&v).is_ok(), "untyped ignored", "{v:?} cannot be ignored");
    // the kinds by themselves
    let un = |v: &Value| {
        let mut v = v.clone();
        while let Value::Tagged(t) = v {
            v = t.value;
        }
        v
    };
    let bare = un(&v);
    for (route, r) in [("owned", serde_yaml::from_value::<Mapping>(v.clone())), ("borrowed", Mapping::deserialize(&v))] {
        match (&bare, r) {
            (Value::Mapping(x), Ok(y)) => ensure!(from_val(&Value::Mapping(y)).same(&from_val(&Value::Mapping(x.clone()))), "untyped mapping", "{route}: mapping changed"),
            (Value::Null, Ok(y)) => ensure!(y.is_empty(), "untyped mapping", "{route}: null reads as {y:?}"),
            (Value::Mapping(_), Err(e)) => return fail("untyped mapping", format!("{route}: {v:?}: {e}")),
            (_, Ok(y)) => return fail("untyped mapping", format!("{route}: {v:?} reads as the mapping {y:?}")),
            (_, Err(_)) => {}
        }
    }
    for (route, r) in [("owned", serde_yaml::from_value::<Sequence>(v.clone())), ("borrowed", Sequence::deserialize(&v))] {
        match (&bare, r) {
            (Value::Sequence(x), Ok(y)) => ensure!(from_val(&Value::Sequence(y)).same(&from_val(&Value::Sequence(x.clone()))), "untyped sequence", "{route}: sequence changed"),
            (Value::Null, Ok(y)) => ensure!(y.is_empty(), "untyped sequence", "{route}: null reads as {y:?}"),
            (Value::Sequence(_), Err(e)) => return fail("untyped sequence", format!("{route}: {v:?}: {e}")),
            (_, Ok(y)) => return fail("untyped sequence", format!("{route}: {v:?} reads as the sequence {y:?}")),
            (_, Err(_)) => {}
        }
    }
    for (route, r) in [("owned", serde_yaml::from_value::<TaggedValue>(v.clone())), ("borrowed", TaggedValue::deserialize(&v))] {
        match (&v, r) {
            (Value::Tagged(x), Ok(y)) => ensure!(from_val(&Value::Tagged(Box::new(y))).same(&from_val(&Value::Tagged(x.clone()))), "untyped tagged", "{route}: tagged value changed"),
            (Value::Tagged(_), Err(e)) => return fail("untyped tagged", format!("{route}: {v:?}: {e}")),
            (_, Ok(y)) => return fail("untyped tagged", format!("{route}: untagged {v:?} reads as {y:?}")),
            (_, Err(_)) => {}
        }
    }
    if let Value::Tagged(t) = &v {
        for (route, r) in [("owned", AnyM::deserialize((**t).clone())), ("borrowed", AnyM::deserialize(&**t))] {
            match r {
                Ok(AnyM(g)) => ensure!(g.same(&m), "untyped tagged", "{route} tagged value hands out a different tree: {}", diff(&m, &g)),
                Err(e) => return fail("untyped tagged", format!("{route} tagged value {v:?}: {e}")),
            }
        }
        check("to_value of a tagged value", serde_yaml::to_value(&**t))?;
        c.ev("tagged values");
    }
    if let Value::Mapping(x) = &v {
        check("to_value of a mapping", serde_yaml::to_value(x))?;
        c.ev("mappings");
    }
    if let Value::Number(x) = &v {
        check("to_value of a number", serde_yaml::to_value(x))?;
        match Number::deserialize(&v) {
            Ok(n) => check("number", Ok(Value::Number(n)))?,
            Err(e) => return fail("untyped number", format!("{v:?}: {e}")),
        }
    }
    // and through text, where text can hold it
    if !m.has_nested_tag() {
        let text = serde_yaml::to_string(&v).map_err(|e| Fail { sig: "to_string".into(), msg: format!("{v:?}: {e}") })?;
        check("text", serde_yaml::from_str(&text))?;
    }
    Ok(())
}

fn conversions(c: &mut Case) -> R {
    macro_rules! int {
        ($($t:ty)*) => { $(
            let i = c.rng.next() as $t;
            let i = match c.rng.below(4) { 0 => <$t>::MAX, 1 => <$t>::MIN, _ => i };
            let m = M::Int(i as i128);
            ensure!(from_val(&Value::from(i)).same(&m), "from-int", "Value::from({i}{}) = {:?}", stringify!($t), Value::from(i));
            ensure!(num_model(&Number::from(i)).same(&m), "from-int", "Number::from({i}{}) = {:?}", stringify!($t), Number::from(i));
            ensure!(Value::from(i) == i && i == i, "from-int", "Value::from({i}) != {i}");
        )* };
    }
    int!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    let f = gen_f64(&mut c.rng);
    ensure!(from_val(&Value::from(f)).same(&M::F(f)), "from-float", "Value::from({f:?})");
    let g = gen_f32(&mut c.rng);
    ensure!(from_val(&Value::from(g)).same(&M::F(g as f64)), "from-float", "Value::from({g:?}f32)");
    let s = gen_string(&mut c.rng);
    c.nontrivial(&(&s, f.to_bits()));
    let ms = M::s(&s);
    ensure!(from_val(&Value::from(&s[..])).same(&ms) && from_val(&Value::from(s.clone())).same(&ms) && from_val(&Value::from(Cow::Borrowed(&s[..]))).same(&ms) && from_val(&Value::from(Cow::<str>::Owned(s.clone()))).same(&ms), "from-str", "Value::from({s:?})");
    let b = c.rng.bool();
    ensure!(from_val(&Value::from(b)).same(&M::Bool(b)), "from-bool", "Value::from({b})");
    let m = gen_m(&mut c.rng, &GenCfg::default());
    let v = to_val(&m);
    if let M::Seq(x) = &m {
        let vs: Vec<Value> = x.iter().map(to_val).collect();
        ensure!(from_val(&Value::from(vs.clone())).same(&m), "from-vec", "{m:?}");
        ensure!(from_val(&Value::from(&vs[..])).same(&m), "from-slice", "{m:?}");
        ensure!(from_val(&vs.into_iter().collect::<Value>()).same(&m), "from-iter", "{m:?}");
        c.ev("sequences converted");
    }
    if let Value::Mapping(x) = &v {
        ensure!(from_val(&Value::from(x.clone())).same(&m), "from-mapping", "{m:?}");
        c.ev("mappings converted");
    }
    if let Value::Tagged(t) = v {
        ensure!(from_val(&Value::Tagged(t.clone())).same(&m), "from-tagged", "{m:?}");
    }
    c.ev("From conversions");
    Ok(())
}

// --------------------------------------------------- library types and serde attributes

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(deny_unknown_fields, rename_all = "kebab-case")]
struct Strict {
    field_one: Option<String>,
    #[serde(alias = "zwei")]
    field_two: u32,
    #[serde(default)]
    field_three: Vec<f64>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "kind")]
enum Tagged {
    A { n: i64, s: Option<Strict> },
    B(Box<Strict>),
    C,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Untagged {
    N(i64),
    F(f64),
    S(String),
    T(i64, String),
    V(Vec<Untagged>),
    M { k: Box<Untagged> },
    Map(BTreeMap<String, Untagged>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flatten {
    id: i32,
    #[serde(flatten)]
    t: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Inner {
    a: u8,
    b: Option<String>,
}
fn strict(r: &mut Rng) -> Strict {
    Strict { field_one: if r.bool() { None } else { Some(gen_string(r)) }, field_two: r.next() as u32, field_three: (0..r.below(3)).map(|_| r.below(100) as f64 / 4.0 + 0.1).collect() }
}
fn tagged(r: &mut Rng) -> Tagged {
    match r.below(3) {
        0 => Tagged::A { n: r.next() as i64, s: if r.bool() { None } else { Some(strict(r)) } },
        1 => Tagged::B(Box::new(strict(r))),
        _ => Tagged::C,
    }
}
fn un(r: &mut Rng, d: usize) -> Untagged {
    match r.below(if d == 0 { 3 } else { 7 }) {
        0 => Untagged::N(r.next() as i64),
        1 => Untagged::F(r.below(100) as f64 + 0.5),
        2 => Untagged::S(gen_string(r)),
        3 => Untagged::T(1, gen_string(r)),
        4 => Untagged::V((0..r.below(2)).map(|_| un(r, d - 1)).chain([Untagged::F(0.5)]).collect()),
        5 => Untagged::M { k: Box::new(un(r, d - 1)) },
        _ => Untagged::Map((0..r.below(3)).map(|i| (format!("x{i}"), un(r, d - 1))).collect()),
    }
}
fn all<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Case, t: T) -> R {
    let name = std::any::type_name::<T>();
    let sig = format!("std {name}");
    let e = |w: &str, e: serde_yaml::Error| Fail { sig: sig.clone(), msg: format!("{name} {t:?}: {w}: {e}") };
    let text = serde_yaml::to_string(&t).map_err(|x| e("to_string", x))?;
    let v = serde_yaml::to_value(&t).map_err(|x| e("to_value", x))?;
    let p: Value = serde_yaml::from_str(&text).map_err(|x| e("parsing", x))?;
    c.nontrivial(&(name, &text));
    ensure!(from_val(&v).same(&from_val(&p)), &sig, "{name} {t:?}: to_value {v:?}, text {text:?}");
    for (route, r) in [("text", serde_yaml::from_str::<T>(&text)), ("owned", serde_yaml::from_value::<T>(v.clone())), ("borrowed", T::deserialize(&v)), ("parsed value", serde_yaml::from_value::<T>(p.clone()))] {
        let b = r.map_err(|x| e(route, x))?;
        ensure!(b == t, &sig, "{name} {t:?} via {route} gives {b:?}\ntext {text:?}");
    }
    c.ev("derived and library types, four routes");
    Ok(())
}
fn std_types(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    match r.below(12) {
        0 => all(c, strict(r)),
        1 => all(c, tagged(r)),
        2 | 3 => all(c, un(r, 3)),
        4 => all(c, Flatten { id: r.next() as i32, t: Inner { a: 3, b: if r.bool() { None } else { Some(gen_string(r)) } }, rest: (0..r.below(3)).map(|i| (format!("q{i}"), to_val(&gen_scalar(r)))).collect() }),
        5 => all(c, (0..r.below(4)).map(|_| (r.next() as i32, gen_string(r))).collect::<HashMap<i32, String>>()),
        6 => all(c, (0..r.below(4)).map(|_| (gen_char(r), vec![Some(gen_string(r)), None])).collect::<BTreeMap<char, Vec<Option<String>>>>()),
        7 => all(c, std::time::Duration::new(r.next() >> 1, r.below(1_000_000_000) as u32)),
        8 => all(c, (std::net::Ipv4Addr::from(r.next() as u32), std::net::Ipv6Addr::from(r.next() as u128))),
        9 => all(c, std::path::PathBuf::from(gen_string(r))),
        10 => all(c, if r.bool() { Ok::<(u8, ()), String>((r.next() as u8, ())) } else { Err(gen_string(r)) }),
        _ => all(c, (r.bool(), Some(gen_char(r)), [r.next() as i16; 3], (), std::num::NonZeroU8::new(r.range(1, 255) as u8))),
    }
}
