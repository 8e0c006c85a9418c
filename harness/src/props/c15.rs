//! C15: laws of equality, order and hash; exact accessors, printing and parsing.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::props::c14::{fixed_keys, respell};
use crate::resolve::{plain_ref, Res};
use serde::Deserialize;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "pools of 3 to 8 values of every kind (fixed boundary values, random trees, respelled equals, near misses): every ordered pair and every triple is checked against a canonical form for equality, hash and the laws of the order, as values, numbers, tags, tagged values, mappings and sequences; every accessor, conversion, comparison with a primitive, printed and parsed number against exact arithmetic; every number text up to 4 (thorough 5) characters; non-trivial = distinct pools, numbers, values",
        assumptions: &["where integers sort against floats and how kinds sort against each other is left open, as long as the laws hold"],
        subs: vec![
            exhaustive("fixed-triples", |_| (fixed_keys().len() * fixed_keys().len()) as u64, fixed_triples),
            exhaustive("number-texts", |t| (NUM_ALPHA.len() as u64).pow(if t { 5 } else { 4 }), number_texts),
            random("laws", 6, laws),
            random("numbers", 5, numbers),
            random("texts", 4, texts),
            random("accessors", 4, accessors),
            random("primitives", 4, primitives),
            random("tags", 3, tags),
            random("conversions", 2, conversions),
            random("wide", 1, wide),
        ],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

fn has_nan(m: &M) -> bool {
    match m {
        M::F(f) => f.is_nan(),
        M::Seq(v) => v.iter().any(has_nan),
        M::Map(v) => v.iter().any(|(k, x)| has_nan(k) || has_nan(x)),
        M::Tag(_, x) => has_nan(x),
        _ => false,
    }
}
/// The order where it is beyond doubt: outer None = left open.
fn natural(a: &M, b: &M) -> Option<Option<Ordering>> {
    match (a, b) {
        (M::Null, M::Null) => Some(Some(Ordering::Equal)),
        (M::Bool(a), M::Bool(b)) => Some(Some(a.cmp(b))),
        (M::Int(a), M::Int(b)) => Some(Some(a.cmp(b))),
        (M::F(a), M::F(b)) => Some(if a.is_nan() && b.is_nan() { Some(Ordering::Equal) } else { a.partial_cmp(b) }),
        (M::S(a), M::S(b)) => Some(Some(a.cmp(b))),
        (M::Seq(a), M::Seq(b)) => {
            for (x, y) in a.iter().zip(b) {
                match natural(x, y) {
                    Some(Some(Ordering::Equal)) => {}
                    r => return r,
                }
            }
            Some(Some(a.len().cmp(&b.len())))
        }
        (M::Tag(t, x), M::Tag(u, y)) => {
            if t == u {
                natural(x, y)
            } else {
                Some(Some(t.cmp(u)))
            }
        }
        (M::Map(_), M::Map(_)) if a.canon() == b.canon() => Some(Some(Ordering::Equal)),
        _ => None,
    }
}

/// Equality, hash, order and derived operators of one pair, against the model.
fn pair<T: PartialEq + PartialOrd + Hash + Debug>(what: &str, a: &T, b: &T, ma: &M, mb: &M) -> R {
    let eq = ma.canon() == mb.canon();
    let ctx = || format!("as {what}:\n{a:?}\nand\n{b:?}");
    ensure!((a == b) == eq && (b == a) == eq, "equality", "equal is {} / {}, expected {eq}, {}", a == b, b == a, ctx());
    ensure!((a != b) != eq, "inequality", "!= is {}, {}", a != b, ctx());
    if eq {
        ensure!(hash_of(a) == hash_of(b), "hash", "equal but different hashes {}", ctx());
    }
    let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
    ensure!(x == y.map(Ordering::reverse), "antisymmetry", "compare as {x:?} and {y:?} {}", ctx());
    ensure!((x == Some(Ordering::Equal)) == eq, "order-equality", "compare as {x:?} though equality is {eq} {}", ctx());
    if x.is_none() {
        ensure!(has_nan(ma) || has_nan(mb), "unordered", "unordered without a NaN {}", ctx());
    }
    if let Some(n) = natural(ma, mb) {
        ensure!(x == n, "natural-order", "compare as {x:?}, expected {n:?} {}", ctx());
    }
    ensure!((a < b) == (x == Some(Ordering::Less)) && (a > b) == (x == Some(Ordering::Greater)), "strict-operators", "< or > disagree with {x:?} {}", ctx());
    ensure!((a <= b) == matches!(x, Some(Ordering::Less | Ordering::Equal)) && (a >= b) == matches!(x, Some(Ordering::Greater | Ordering::Equal)), "weak-operators", "<= or >= disagree with {x:?} {}", ctx());
    Ok(())
}
fn number_of(v: &Value) -> Option<&Number> {
    match v {
        Value::Number(n) => Some(n),
        _ => None,
    }
}
/// All typed views of a pair of values.
fn views(a: &Value, b: &Value, ma: &M, mb: &M) -> R {
    pair("values", a, b, ma, mb)?;
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => pair("numbers", x, y, ma, mb)?,
        (Value::Mapping(x), Value::Mapping(y)) => pair("mappings", x, y, ma, mb)?,
        (Value::Tagged(x), Value::Tagged(y)) => pair("tagged values", &**x, &**y, ma, mb)?,
        (Value::Sequence(x), Value::Sequence(y)) => pair("sequences", x, y, ma, mb)?,
        _ => {}
    }
    Ok(())
}
fn triple(x: &Value, y: &Value, z: &Value) -> R {
    let (xy, yz, xz) = (x.partial_cmp(y), y.partial_cmp(z), x.partial_cmp(z));
    let le = |o: Option<Ordering>| matches!(o, Some(Ordering::Less | Ordering::Equal));
    if le(xy) && le(yz) {
        let want = if xy == Some(Ordering::Less) || yz == Some(Ordering::Less) { Ordering::Less } else { Ordering::Equal };
        ensure!(xz == Some(want), "transitivity", "{xy:?} then {yz:?} but overall {xz:?}\n{x:?}\n{y:?}\n{z:?}");
    }
    if x == y && y == z {
        ensure!(x == z, "eq-transitivity", "equality is not transitive\n{x:?}\n{y:?}\n{z:?}");
    }
    Ok(())
}
fn fixed_triples(c: &mut Case, i: u64) -> R {
    let f = fixed_keys();
    let n = f.len();
    let (a, b) = (&f[i as usize / n], &f[i as usize % n]);
    let (va, vb) = (to_val(a), to_val(b));
    views(&va, &vb, a, b)?;
    for m in &f {
        triple(&va, &vb, &to_val(m))?;
    }
    // one level down, in every kind of container
    for wrap in [|m: &M| M::Seq(vec![m.clone()]), |m: &M| M::Map(vec![(M::s("k"), m.clone())]), |m: &M| M::Map(vec![(m.clone(), M::Null)]), |m: &M| M::Tag("t".into(), Box::new(m.clone()))] {
        let (wa, wb) = (wrap(a), wrap(b));
        views(&to_val(&wa), &to_val(&wb), &wa, &wb)?;
    }
    c.evn("triples", n as u64);
    c.evn("pairs", 5);
    c.nontrivial(&("fixed", i));
    Ok(())
}

fn tweak(r: &mut Rng, m: &M) -> M {
    match m {
        M::Null => M::Bool(false),
        M::Bool(b) => M::Bool(!b),
        M::Int(i) => match r.below(4) {
            0 => M::F(*i as f64),
            1 => M::Int((-i).clamp(i64::MIN as i128, u64::MAX as i128)),
            2 => M::S(i.to_string()),
            _ => M::Int((i + 1).min(u64::MAX as i128)),
        },
        M::F(f) => match r.below(4) {
            0 if f.fract() == 0.0 && f.abs() < 1e18 => M::Int(*f as i128),
            1 => M::F(f64::from_bits(f.to_bits().wrapping_add(1))),
            2 => M::F(f64::NAN),
            _ => M::F(-f),
        },
        M::S(s) => match r.below(3) {
            0 => M::S(format!("{s}\0")),
            1 => M::S(s.chars().skip(1).collect()),
            _ => M::Seq(vec![m.clone()]),
        },
        M::Seq(v) if !v.is_empty() => {
            let i = r.below(v.len());
            let mut v = v.clone();
            match r.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => v.push(M::Null),
                2 => {
                    let j = r.below(v.len());
                    v.swap(i, j);
                }
                _ => v[i] = tweak(r, &v[i].clone()),
            }
            M::Seq(v)
        }
        M::Seq(_) => M::Map(vec![]),
        M::Map(v) if !v.is_empty() => {
            let i = r.below(v.len());
            let mut v = v.clone();
            match r.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let k = tweak(r, &v[i].0.clone());
                    if v.iter().all(|(x, _)| x.canon() != k.canon()) {
                        v[i].0 = k;
                    }
                }
                2 => {
                    // values of two keys exchanged
                    let j = r.below(v.len());
                    let (x, y) = (v[i].1.clone(), v[j].1.clone());
                    v[i].1 = y;
                    v[j].1 = x;
                }
                _ => v[i].1 = tweak(r, &v[i].1.clone()),
            }
            M::Map(v)
        }
        M::Map(_) => M::Seq(vec![]),
        M::Tag(t, x) => match r.below(4) {
            0 => (**x).clone(),
            1 => M::Tag(format!("{t}a"), x.clone()),
            2 => M::Tag(t.clone(), Box::new(M::Tag(t.clone(), x.clone()))),
            _ => M::Tag(t.clone(), Box::new(tweak(r, x))),
        },
    }
}
/// Build with the '!' of tags written or not, at random.
fn to_val_bang(r: &mut Rng, m: &M) -> Value {
    match m {
        M::Seq(v) => Value::Sequence(v.iter().map(|x| to_val_bang(r, x)).collect()),
        M::Map(v) => Value::Mapping(v.iter().map(|(k, x)| (to_val_bang(r, k), to_val_bang(r, x))).collect()),
        M::Tag(t, x) => {
            let t = if r.bool() { format!("!{t}") } else { t.clone() };
            Value::Tagged(Box::new(TaggedValue { tag: Tag::new(t), value: to_val_bang(r, x) }))
        }
        m => to_val(m),
    }
}
fn laws(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let f = fixed_keys();
    let n = r.range(3, 8);
    let mut ms: Vec<M> = vec![];
    while ms.len() < n {
        let m = match r.below(7) {
            0 => r.pick(&f).clone(),
            1 => gen_m_at(r, &GenCfg { nested_tags: true, ..GenCfg::default() }, 4, &mut 14, false),
            2 => gen_scalar(r),
            3 if !ms.is_empty() => {
                let m = r.pick(&ms).clone();
                respell(r, &m)
            }
            _ if !ms.is_empty() => {
                let m = r.pick(&ms).clone();
                let m = tweak(r, &m);
                if r.bool() {
                    respell(r, &m)
                } else {
                    m
                }
            }
            _ => M::F(gen_f64(r)),
        };
        ms.push(m);
    }
    let vs: Vec<Value> = ms.iter().map(|m| to_val_bang(r, m)).collect();
    for (v, m) in vs.iter().zip(&ms) {
        ensure!(from_val(v).canon() == m.canon(), "construct", "built {v:?} from {m:?}");
        let w = v.clone();
        views(v, &w, m, m)?;
        ensure!(from_val(&w).same(&from_val(v)), "clone", "a clone of {v:?} is {w:?}");
    }
    for i in 0..n {
        for j in 0..n {
            views(&vs[i], &vs[j], &ms[i], &ms[j])?;
            c.ev(match vs[i].partial_cmp(&vs[j]) {
                Some(Ordering::Equal) => "pairs equal",
                Some(_) => "pairs ordered",
                None => "pairs unordered",
            });
            for k in 0..n {
                triple(&vs[i], &vs[j], &vs[k])?;
                c.ev("triples");
            }
        }
    }
    // as members of sequences and mappings the same relations follow
    let a = M::Seq(ms.clone());
    let b = respell(r, &a);
    views(&to_val_bang(r, &a), &to_val_bang(r, &b), &a, &b)?;
    let t = tweak(r, &a);
    views(&to_val_bang(r, &a), &to_val_bang(r, &t), &a, &t)?;
    c.nontrivial(&a.canon());
    c.sample(|| format!("{vs:?}"));
    Ok(())
}

// ------------------------------------------------------------------ numbers
/// Collections and texts of hundreds of parts: equal ones built in different
/// ways, and ones that differ in one part somewhere.
fn wide(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = r.range(10, if c.thorough { 900 } else { 300 });
    let leaf = |r: &mut Rng, i: usize| match r.below(5) {
        0 => M::Int(i as i128 - n as i128 / 2),
        1 => M::F(i as f64 / 8.0),
        2 => M::Tag("t".into(), Box::new(M::Int(i as i128))),
        3 => M::Seq(vec![M::Bool(i % 2 == 0), M::Null]),
        _ => M::S(format!("s{i}")),
    };
    let kind = r.below(4);
    let build = |v: &[M]| match kind {
        0 => M::Seq(v.to_vec()),
        1 => M::Map(v.iter().enumerate().map(|(i, x)| (M::Int(i as i128), x.clone())).collect()),
        2 => M::Map(v.iter().enumerate().map(|(i, x)| (M::Seq(vec![x.clone(), M::Int(i as i128)]), M::Null)).collect()),
        _ => M::S(v.iter().map(|x| format!("{x:?} ")).collect::<String>()),
    };
    let v: Vec<M> = (0..n).map(|i| leaf(r, i)).collect();
    let a = build(&v);
    let b = respell(r, &a);
    let mut w = v.clone();
    let at = r.below(n);
    w[at] = M::s("other");
    let d = respell(r, &build(&w));
    let mut s = v;
    s.pop();
    let e = respell(r, &build(&s));
    let ms = [a, b, d, e];
    let vs: Vec<Value> = ms.iter().map(to_val).collect();
    for i in 0..ms.len() {
        for j in 0..ms.len() {
            pair("value", &vs[i], &vs[j], &ms[i], &ms[j])?;
            views(&vs[i], &vs[j], &ms[i], &ms[j])?;
            for k in 0..ms.len() {
                triple(&vs[i], &vs[j], &vs[k])?;
            }
        }
    }
    c.ev("wide values compared");
    c.nontrivial(&(kind, n, at, c.idx));
    Ok(())
}

fn check_number(n: &Number, m: &M) -> R {
    let ctx = || format!("{n:?} built for {m:?}");
    match *m {
        M::Int(i) => {
            let (wi, wu) = (i64::try_from(i).ok(), u64::try_from(i).ok());
            ensure!(n.as_i64() == wi && n.is_i64() == wi.is_some(), "as-i64", "as_i64 {:?} is_i64 {} for {}", n.as_i64(), n.is_i64(), ctx());
            ensure!(n.as_u64() == wu && n.is_u64() == wu.is_some(), "as-u64", "as_u64 {:?} is_u64 {} for {}", n.as_u64(), n.is_u64(), ctx());
            ensure!(!n.is_f64() && !n.is_nan() && !n.is_infinite() && n.is_finite(), "int-class", "float predicates wrong for {}", ctx());
            ensure!(n.as_f64().map(f64::to_bits) == Some((i as f64).to_bits()), "as-f64", "as_f64 {:?} for {}", n.as_f64(), ctx());
            ensure!(n.to_string() == i.to_string(), "display-int", "prints {n} for {}", ctx());
        }
        M::F(f) => {
            ensure!(n.as_i64().is_none() && n.as_u64().is_none() && !n.is_i64() && !n.is_u64(), "float-as-int", "a float read as an integer {}", ctx());
            ensure!(n.is_f64() && n.is_nan() == f.is_nan() && n.is_infinite() == f.is_infinite() && n.is_finite() == f.is_finite(), "float-class", "float predicates wrong for {}", ctx());
            let g = n.as_f64();
            ensure!(g.map_or(false, |g| M::F(g).same(m)), "float-value", "as_f64 {g:?} for {}", ctx());
            let s = n.to_string();
            let want = if f.is_nan() {
                Some(".nan")
            } else if f == f64::INFINITY {
                Some(".inf")
            } else if f == f64::NEG_INFINITY {
                Some("-.inf")
            } else {
                None
            };
            match want {
                Some(w) => ensure!(s == w, "display-special", "prints {s:?} for {}", ctx()),
                None => ensure!(s.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()) && s.parse::<i128>().is_err(), "display-float", "prints {s:?} for {f:e}"),
            }
        }
        _ => unreachable!(),
    }
    let s = n.to_string();
    let back: Result<Number, _> = s.parse();
    match back {
        Ok(b) => ensure!(num_model(&b).same(m) && b == *n && hash_of(&b) == hash_of(n), "print-parse", "{s:?} parsed back as {b:?} from {}", ctx()),
        Err(e) => return fail("print-parse", format!("{s:?} does not parse back: {e} from {}", ctx())),
    }
    Ok(())
}
fn gen_num(r: &mut Rng) -> M {
    if r.bool() {
        M::Int(gen_int(r))
    } else {
        M::F(gen_f64(r))
    }
}
fn numbers(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let m = gen_num(r);
    let n = match &m {
        M::Int(i) => int_number(*i),
        M::F(f) => Number::from(*f),
        _ => unreachable!(),
    };
    check_number(&n, &m)?;
    // every primitive type that can hold it
    macro_rules! ints {
        ($($t:ty)*) => { $(
            if let M::Int(i) = m {
                if let Ok(p) = <$t>::try_from(i) {
                    let q = Number::from(p);
                    check_number(&q, &m)?;
                    ensure!(q == n && hash_of(&q) == hash_of(&n), "from-prim", "{}::{p} becomes {q:?} which differs from {n:?}", stringify!($t));
                    let v = Value::from(p);
                    ensure!(v == Value::Number(n.clone()), "value-from-prim", "{}::{p} becomes {v:?}", stringify!($t));
                    c.ev("from primitives");
                }
                // reading the number back into the type
                let want = <$t>::try_from(i).ok();
                let got = <$t>::deserialize(n.clone()).ok();
                ensure!(got == want, "number-into", "{n:?} read as {} is {got:?}", stringify!($t));
                let got = <$t>::deserialize(&n).ok();
                ensure!(got == want, "number-into-ref", "{n:?} read as {} by reference is {got:?}", stringify!($t));
            }
        )* };
    }
    ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    if let M::Int(i) = m {
        let (a, b) = (i128::deserialize(&n).ok(), u128::deserialize(&n).ok());
        ensure!(a == Some(i) && b == u128::try_from(i).ok(), "number-into-128", "{n:?} read as 128-bit integers is {a:?} and {b:?}");
    }
    if let M::F(f) = m {
        let g = f as f32;
        let q = Number::from(g);
        check_number(&q, &M::F(g as f64))?;
        ensure!(Value::from(g) == Value::Number(q.clone()) && Value::from(f) == Value::Number(n.clone()), "value-from-float", "{f:?}");
        let h = f64::deserialize(&n);
        ensure!(matches!(h, Ok(h) if M::F(h).same(&m)), "float-into", "{n:?} read as f64 is {h:?}");
        let sign_only = f64::from_bits(f.to_bits() | 0x7ff8_0000_0000_0000 | r.next() >> 13);
        if sign_only.is_nan() {
            // one NaN
            let z = Number::from(sign_only);
            ensure!(z == Number::from(f64::NAN) && hash_of(&z) == hash_of(&Number::from(f64::NAN)) && z.to_string() == ".nan", "nan", "{z:?}");
            ensure!(z.as_f64().map(f64::to_bits) == Number::from(f64::NAN).as_f64().map(f64::to_bits), "nan-bits", "the payload of a NaN survives");
        }
        ensure!(i64::deserialize(&n).is_err() && u8::deserialize(n.clone()).is_err(), "float-into-int", "{n:?} was read as an integer");
    }
    // into a value and back
    let v = serde_yaml::to_value(&n);
    ensure!(matches!(&v, Ok(Value::Number(x)) if num_model(x).same(&m)), "to-value", "{n:?} becomes {v:?}");
    let b: Result<Number, _> = serde_yaml::from_value(Value::Number(n.clone()));
    ensure!(matches!(&b, Ok(x) if num_model(x).same(&m)), "from-value", "{n:?} becomes {b:?}");
    ensure!(Number::deserialize(&n).map_or(false, |x| num_model(&x).same(&m)), "from-number", "{n:?}");
    // a pair of close numbers
    let o = tweak(r, &m);
    if matches!(o, M::Int(_) | M::F(_)) {
        let w = to_val(&o);
        pair("numbers", &n, number_of(&w).unwrap(), &m, &o)?;
    }
    c.ev(if matches!(m, M::Int(_)) { "integers" } else { "floats" });
    c.nontrivial(&m.canon());
    Ok(())
}

const NUM_ALPHA: &[u8] = b"+-.0179xobeEaFfinN_ ";
fn check_text(c: &mut Case, s: &str) -> R {
    let got: Result<Number, _> = s.parse();
    match plain_ref(s) {
        Res::Val(m @ (M::Int(_) | M::F(_))) => {
            match &got {
                Ok(n) => {
                    ensure!(num_model(n).same(&m), "parse-value", "{s:?} parsed as {n:?}, is {m:?}");
                    check_number(n, &m)?;
                }
                Err(e) => return fail("parse-refused", format!("{s:?} ({m:?}) refused: {e}")),
            }
            c.ev("texts of numbers");
        }
        _ => {
            ensure!(got.is_err(), "parse-accepted", "{s:?} is no 64-bit number but parsed as {:?}", got.unwrap());
            c.ev("texts refused");
        }
    }
    Ok(())
}
fn number_texts(c: &mut Case, i: u64) -> R {
    let mut s = String::new();
    let mut k = i;
    let len = if c.thorough { 5 } else { 4 };
    for _ in 0..len {
        s.push(NUM_ALPHA[(k % NUM_ALPHA.len() as u64) as usize] as char);
        k /= NUM_ALPHA.len() as u64;
    }
    // a trailing space ends the text, so that all shorter texts are included
    let t = s.trim_end_matches(' ');
    check_text(c, t)
}
fn texts(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let s = match r.below(8) {
        0 => gen_string(r),
        1 => {
            // around the 64 and 128 bit limits in every radix
            let base = 1u128 << r.range(60, 127);
            let v = base.wrapping_add(r.below(5) as u128).wrapping_sub(2);
            let sign = *r.pick(&["", "-", "+"]);
            match r.below(4) {
                0 => format!("{sign}{v}"),
                1 => format!("{sign}{v:#x}"),
                2 => format!("{sign}{v:#o}"),
                _ => format!("{sign}{v:#b}"),
            }
        }
        2 => {
            let f = gen_f64(r);
            match r.below(3) {
                0 => format!("{f:e}"),
                1 => format!("{f}"),
                _ => format!("{f:.3}"),
            }
        }
        _ => gen_number_text(r),
    };
    check_text(c, &s)?;
    c.nontrivial(&s);
    c.sample(|| s.clone());
    c.rng = r.clone();
    Ok(())
}

// ---------------------------------------------------------------- accessors
fn accessors(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let core = if r.chance(1, 3) {
        gen_m_at(r, &GenCfg::default(), 2, &mut 5, true)
    } else if r.bool() {
        gen_num(r)
    } else {
        r.pick(&fixed_keys()).clone()
    };
    let mut m = core.clone();
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3, 40]) {
        m = M::Tag(gen_tag(r), Box::new(m));
    }
    let mut core = m.clone();
    while let M::Tag(_, x) = core {
        core = *x;
    }
    let v = to_val_bang(r, &m);
    let ctx = || format!("{v:?}");
    let (isnull, b) = (matches!(core, M::Null), if let M::Bool(b) = core { Some(b) } else { None });
    ensure!(v.is_null() == isnull && v.as_null().is_some() == isnull, "null", "{}", ctx());
    ensure!(v.as_bool() == b && v.is_bool() == b.is_some(), "bool", "{}", ctx());
    let (i, u, f, num) = match core {
        M::Int(i) => (i64::try_from(i).ok(), u64::try_from(i).ok(), Some(i as f64), true),
        M::F(f) => (None, None, Some(f), true),
        _ => (None, None, None, false),
    };
    ensure!(v.is_number() == num, "number", "{}", ctx());
    ensure!(v.as_i64() == i && v.is_i64() == i.is_some(), "i64", "{:?} {}", v.as_i64(), ctx());
    ensure!(v.as_u64() == u && v.is_u64() == u.is_some(), "u64", "{:?} {}", v.as_u64(), ctx());
    let g = v.as_f64();
    let ok = match (f, g) {
        (None, None) => true,
        (Some(f), Some(g)) => M::F(f).same(&M::F(g)),
        _ => false,
    };
    ensure!(ok && v.is_f64() == matches!(core, M::F(_)), "f64", "{g:?} {}", ctx());
    let s = if let M::S(s) = &core { Some(s.as_str()) } else { None };
    ensure!(v.as_str() == s && v.is_string() == s.is_some(), "str", "{:?} {}", v.as_str(), ctx());
    let seq = v.as_sequence().map(|x| M::Seq(x.iter().map(from_val).collect()));
    ensure!(v.is_sequence() == matches!(core, M::Seq(_)) && seq.is_some() == v.is_sequence(), "sequence", "{}", ctx());
    let map = v.as_mapping().map(|x| from_val(&Value::Mapping(x.clone())));
    ensure!(v.is_mapping() == matches!(core, M::Map(_)) && map.is_some() == v.is_mapping(), "mapping", "{}", ctx());
    if let Some(x) = seq.or(map) {
        ensure!(x.same(&core), "contents", "{} instead of {core:?} in {}", diff(&x, &core), ctx());
    }
    // the mutable forms address the same node, leaving tags alone
    let mut w = v.clone();
    let mut want = m.clone();
    fn inner(m: &mut M) -> &mut M {
        match m {
            M::Tag(_, x) => inner(x),
            m => m,
        }
    }
    let s = w.as_sequence_mut().map(|x| x.push(Value::from(7)));
    if let M::Seq(x) = inner(&mut want) {
        x.push(M::Int(7));
    }
    ensure!(s.is_some() == v.is_sequence(), "sequence-mut", "{}", ctx());
    let key = M::s("a key that is not there");
    let s = w.as_mapping_mut().map(|x| {
        x.insert(to_val(&key), Value::Null);
    });
    if let M::Map(x) = inner(&mut want) {
        x.push((key, M::Null));
    }
    ensure!(s.is_some() == v.is_mapping(), "mapping-mut", "{}", ctx());
    let got = from_val(&w);
    ensure!(got.same(&want), "mutated", "after a change {w:?} is not {want:?}: {}", diff(&got, &want));
    ensure!(Value::default() == Value::Null && Value::default().is_null(), "default", "the default value is not null");
    c.ev(match core {
        M::Null => "null",
        M::Bool(_) => "bool",
        M::Int(_) => "int",
        M::F(_) => "float",
        M::S(_) => "string",
        M::Seq(_) => "sequence",
        M::Map(_) => "mapping",
        M::Tag(..) => "?",
    });
    if matches!(m, M::Tag(..)) {
        c.ev("tagged");
    }
    c.nontrivial(&m.canon());
    Ok(())
}

/// `value == primitive` for every primitive type.
fn primitives(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let mut core = match r.below(6) {
        0 => r.pick(&fixed_keys()).clone(),
        1 => M::S(gen_string(r)),
        2 => M::Bool(r.bool()),
        _ => gen_num(r),
    };
    while let M::Tag(_, x) = core {
        core = *x;
    }
    let mut m = core.clone();
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2]) {
        m = M::Tag(gen_tag(r), Box::new(m));
    }
    let mut v = to_val_bang(r, &m);
    let other = if r.bool() { tweak(r, &core) } else { gen_num(r) };
    // integers
    let ints: Vec<i128> = [&core, &other]
        .iter()
        .filter_map(|x| match x {
            M::Int(i) => Some(*i),
            M::F(f) if f.is_finite() => Some(*f as i128),
            _ => None,
        })
        .collect();
    macro_rules! ints {
        ($($t:ty)*) => { $(
            for i in &ints {
                // truncated too: the same low bits must not be enough
                let p = *i as $t;
                let want = matches!(core, M::Int(x) if x == p as i128);
                ensure!((v == p) == want && (&v == p) == want && (&mut v == p) == want, "eq-int", "{v:?} == {p}{} is not {want}", stringify!($t));
                ensure!((v != p) != want, "ne-int", "{v:?} != {p}{}", stringify!($t));
                c.ev(if want { "equal to integers" } else { "different from integers" });
            }
        )* };
    }
    ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    let as_f = match core {
        M::Int(i) => Some(i as f64),
        M::F(f) => Some(f),
        _ => None,
    };
    let mut fs = vec![gen_f64(r)];
    for x in [&core, &other] {
        match x {
            M::Int(i) => fs.push(*i as f64),
            M::F(f) => fs.push(*f),
            _ => {}
        }
    }
    for f in fs {
        let want = as_f.map_or(false, |x| x == f);
        ensure!((v == f) == want && (&v == f) == want && (&mut v == f) == want, "eq-f64", "{v:?} == {f:?} is not {want}");
        let g = f as f32;
        let want = as_f.map_or(false, |x| x == g as f64);
        ensure!((v == g) == want && (&v == g) == want && (&mut v == g) == want, "eq-f32", "{v:?} == {g:?}f32 is not {want}");
        c.ev(if want { "equal to floats" } else { "different from floats" });
    }
    for b in [true, false] {
        let want = matches!(core, M::Bool(x) if x == b);
        ensure!((v == b) == want, "eq-bool", "{v:?} == {b} is not {want}");
    }
    let mut strs = vec![gen_string(r), core_text(&core), String::new()];
    if let M::S(s) = &other {
        strs.push(s.clone());
    }
    for s in strs {
        let want = matches!(&core, M::S(x) if *x == s);
        ensure!((v == *s.as_str()) == want && (v == s.as_str()) == want && (v == s) == want, "eq-str", "{v:?} == {s:?} is not {want}");
        c.ev(if want { "equal to strings" } else { "different from strings" });
    }
    c.nontrivial(&(m.canon(), ints));
    Ok(())
}
fn core_text(m: &M) -> String {
    match m {
        M::Null => "null".into(),
        M::Bool(b) => b.to_string(),
        M::Int(i) => i.to_string(),
        M::F(f) => Number::from(*f).to_string(),
        M::S(s) => s.clone(),
        _ => "[]".into(),
    }
}

// --------------------------------------------------------------------- tags
fn tags(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    ensure!(guarded(|| Tag::new("")).is_err(), "empty-tag", "an empty tag was accepted");
    let text = |r: &mut Rng| -> String {
        let s = match r.below(5) {
            0 => "!".to_string(),
            1 => (*r.pick(&["!!", "!!a", "a!", "a!b", "!a!", "a", "A", "b", "tag:x", "!!!"])).to_string(),
            2 => gen_string(r),
            _ => gen_tag(r),
        };
        if s.is_empty() {
            "x".into()
        } else {
            s
        }
    };
    // significant text: one leading '!' goes, unless nothing would remain
    fn sig(s: &str) -> &str {
        match s.strip_prefix('!') {
            Some("") | None => s,
            Some(t) => t,
        }
    }
    let mut ts: Vec<String> = vec![];
    for _ in 0..r.range(2, 5) {
        let s = if !ts.is_empty() && r.bool() {
            let s: &String = r.pick(&ts);
            match s.strip_prefix('!') {
                Some(t) if !t.is_empty() => t.to_string(),
                _ => format!("!{s}"),
            }
        } else {
            text(r)
        };
        ts.push(s);
    }
    let tags: Vec<Tag> = ts.iter().map(|s| if r.bool() { Tag::new(s.as_str()) } else { Tag::new(s.clone()) }).collect();
    for (s, t) in ts.iter().zip(&tags) {
        let want = format!("!{}", sig(s));
        ensure!(t.to_string() == want && format!("{t:?}") == want, "tag-print", "the tag of {s:?} prints {:?} / {t:?}", t.to_string());
        ensure!(format!("{t}") == want && *t == t.to_string(), "tag-print-eq", "the tag of {s:?} differs from its text");
        for (s2, t2) in ts.iter().zip(&tags) {
            let eq = sig(s) == sig(s2);
            ensure!((t == t2) == eq && (t != t2) != eq, "tag-eq", "tags {s:?} and {s2:?}: equal is {}", t == t2);
            ensure!((*t == *s2.as_str()) == eq && (*t == s2.as_str()) == eq && (t == s2) == eq && (*t == Cow::Borrowed(s2.as_str())) == eq, "tag-eq-str", "tag {s:?} against text {s2:?}");
            ensure!(t.cmp(t2) == sig(s).cmp(sig(s2)) && t.partial_cmp(t2) == Some(t.cmp(t2)), "tag-order", "tags {s:?} and {s2:?}: {:?}", t.cmp(t2));
            if eq {
                ensure!(hash_of(t) == hash_of(t2), "tag-hash", "tags {s:?} and {s2:?} hash differently");
            }
            let (a, b) = (TaggedValue { tag: t.clone(), value: Value::from(1) }, TaggedValue { tag: t2.clone(), value: Value::from(1) });
            let (va, vb) = (Value::Tagged(Box::new(a.clone())), Value::Tagged(Box::new(b.clone())));
            ensure!((a == b) == eq && (va == vb) == eq && a.partial_cmp(&b) == Some(t.cmp(t2)) && va.partial_cmp(&vb) == Some(t.cmp(t2)), "tagged-eq", "tagged by {s:?} and {s2:?}");
            let mut m = Mapping::new();
            m.insert(va, Value::Null);
            ensure!(m.contains_key(&vb) == eq, "tagged-key", "a key tagged {s:?} looked up as {s2:?}");
            c.ev(if eq { "equal tags" } else { "different tags" });
        }
    }
    c.nontrivial(&ts);
    Ok(())
}

// -------------------------------------------------------------- conversions
fn conversions(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let same = |v: Value, m: &M, what: &str| -> R {
        ensure!(from_val(&v).same(m), "from", "from {what}: {v:?} is not {m:?}");
        Ok(())
    };
    let s = gen_string(r);
    let m = M::S(s.clone());
    same(Value::from(s.clone()), &m, "String")?;
    same(Value::from(s.as_str()), &m, "&str")?;
    same(Value::from(Cow::Borrowed(s.as_str())), &m, "Cow")?;
    same(Value::from(Cow::<str>::Owned(s.clone())), &m, "Cow")?;
    let b = r.bool();
    same(Value::from(b), &M::Bool(b), "bool")?;
    let n = gen_len(r, 300);
    let ints: Vec<i64> = (0..n).map(|_| r.next() as i64 >> r.below(64)).collect();
    let want = M::Seq(ints.iter().map(|i| M::Int(*i as i128)).collect());
    same(Value::from(ints.clone()), &want, "Vec")?;
    same(Value::from(&ints[..]), &want, "slice")?;
    same(ints.iter().copied().collect(), &want, "iterator")?;
    same(Value::from_iter(ints.clone()), &want, "from_iter")?;
    let strs: Vec<String> = (0..r.below(5)).map(|_| gen_string(r)).collect();
    let want = M::Seq(strs.iter().map(|s| M::S(s.clone())).collect());
    same(Value::from(strs.clone()), &want, "Vec<String>")?;
    same(strs.iter().map(|s| s.as_str()).collect(), &want, "iterator of &str")?;
    same(Value::from(vec![strs.clone(), vec![]]), &M::Seq(vec![want.clone(), M::Seq(vec![])]), "Vec<Vec>")?;
    let f: Vec<f64> = (0..r.below(6)).map(|_| gen_f64(r)).collect();
    same(Value::from(f.clone()), &M::Seq(f.iter().map(|f| M::F(*f)).collect()), "Vec<f64>")?;
    // mappings: later entries of equal keys replace earlier ones in place
    let m = gen_m_at(r, &GenCfg { nested_tags: true, ..GenCfg::default() }, 3, &mut 10, false);
    if let Value::Mapping(x) = to_val(&m) {
        same(Value::from(x.clone()), &m, "Mapping")?;
        let collected: Mapping = x.into_iter().collect();
        same(Value::from(collected), &m, "collected Mapping")?;
    }
    let v = to_val(&m);
    same(v.clone(), &m, "clone")?;
    same(Value::from(vec![v.clone(), v]), &M::Seq(vec![m.clone(), m.clone()]), "Vec<Value>")?;
    c.ev("conversions");
    c.nontrivial(&(s, m.canon()));
    Ok(())
}
