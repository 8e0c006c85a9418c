//! C22: what a reader does with one node does not affect what it gets for the others.
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::render::*;
use crate::texts;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde_yaml::with::{singleton_map, singleton_map_recursive};
use serde_yaml::Value;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "readers that treat each child of a chosen collection carelessly (swallowed errors, wrong types, left unread, left half-way, keys without values, stopped early) record what they get for each child; every record is compared with that of a reader that skips all the other children; through text, slices, readers, owned and borrowed values and the single-key-map helpers; non-trivial = distinct (document, collection, careless reading)",
        assumptions: &[
            "readings that meet the limit on repeated aliases are left out (the limit counts what was read before)",
            "values are asked for only after a key (serde's contract)",
        ],
        subs: vec![random("children", 6, children), random("damaged", 2, damaged), random("keys", 1, keys_only), random("unread", 1, unread), random("many", 1, many)],
        quick_secs: 15.0,
        thorough_secs: 240.0,
        stack_mb: 64,
    }
}

const MANY: usize = 20_000;

// ---- careless readings -----------------------------------------------------

/// Reads one node in a way decided by the salt; the value describes what it got.
struct Lax<'a>(u64, usize, &'a Cell<usize>);

fn shown<T: fmt::Display, E: fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{v}"),
        Err(e) => format!("E<{e}>"),
    }
}
struct Yes(String);
impl fmt::Display for Yes {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl<'de, 'a> DeserializeSeed<'de> for Lax<'a> {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        let n = self.2.get() + 1;
        self.2.set(n);
        if n > MANY {
            return Ok("ENDLESS".into());
        }
        let s = mix(self.0 ^ 0xA11);
        let v = LaxV(s, self.1, self.2);
        if self.1 == 0 {
            return d.deserialize_ignored_any(IgnoredAny).map(|_| "bottom".into());
        }
        const FS: Names = &["a", "key", "x", "name"];
        match s % 26 {
            0 | 1 => Ok("unread".into()),
            2..=6 => d.deserialize_any(v),
            7 | 8 => {
                let mut r = Rng::new(s);
                let cfg = TyCfg { single: true, enums: 4, ..TyCfg::default() };
                let ty = gen_ty(&mut r, &cfg, 2);
                Seed(&ty, PhantomData::<L0>).deserialize(d).map(|t| format!("{t:?}"))
            }
            9 => d.deserialize_bool(v),
            10 => d.deserialize_u8(v),
            11 => d.deserialize_f64(v),
            12 => d.deserialize_str(v),
            13 => d.deserialize_bytes(v),
            14 => d.deserialize_option(v),
            15 => d.deserialize_unit(v),
            16 => d.deserialize_newtype_struct("N", v),
            17 | 18 => d.deserialize_seq(v),
            19 => d.deserialize_tuple(1 + s as usize % 3, v),
            20 | 21 => d.deserialize_map(v),
            22 => d.deserialize_struct("S", FS, v),
            23 => d.deserialize_enum("E", FS, v),
            24 => d.deserialize_identifier(v),
            _ => d.deserialize_ignored_any(v),
        }
    }
}

struct LaxV<'a>(u64, usize, &'a Cell<usize>);
impl<'a> LaxV<'a> {
    fn child(&self, i: u64) -> Lax<'a> {
        Lax(mix(self.0 ^ mix(i)), self.1 - 1, self.2)
    }
    fn plan(&self, n: u64) -> u64 {
        mix(self.0 ^ 0xB0B) % n
    }
    fn scalar<E: de::Error>(&self, v: String) -> Result<String, E> {
        if self.plan(7) == 0 {
            Err(E::custom(format_args!("not wanted: {v}")))
        } else {
            Ok(v)
        }
    }
}
impl<'de, 'a> Visitor<'de> for LaxV<'a> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something else")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<String, E> {
        self.scalar(format!("b{v}"))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<String, E> {
        self.scalar(format!("i{v}"))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<String, E> {
        self.scalar(format!("u{v}"))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<String, E> {
        self.scalar(format!("f{v}"))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        self.scalar(format!("s{v:?}"))
    }
    fn visit_none<E: de::Error>(self) -> Result<String, E> {
        self.scalar("none".into())
    }
    fn visit_unit<E: de::Error>(self) -> Result<String, E> {
        self.scalar("unit".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.plan(3) {
            0 => Ok(format!("some {}", shown(self.child(0).deserialize(d)))),
            1 => self.child(0).deserialize(d),
            _ => Ok("some unread".into()),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.plan(3) {
            0 => Ok(format!("new {}", shown(self.child(0).deserialize(d)))),
            1 => self.child(0).deserialize(d),
            _ => Ok("new unread".into()),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut out = String::from("[");
        let plan = self.plan(6);
        for i in 0.. {
            if plan == 4 && i == 1 || plan == 5 {
                break;
            }
            if plan == 3 && i == 2 {
                return Err(de::Error::custom("enough"));
            }
            let before = self.2.get();
            match a.next_element_seed(self.child(i)) {
                Ok(None) => break,
                Ok(Some(s)) => out += &s,
                Err(e) if plan < 3 && self.2.get() > before => out += &format!("E<{e}>"),
                Err(e) => return Err(e),
            }
            out += ",";
            if before > MANY {
                return Ok("ENDLESS".into());
            }
        }
        Ok(out + "]")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        let mut out = String::from("{");
        let plan = self.plan(8);
        for i in 0.. {
            if plan == 7 && i == 1 {
                break;
            }
            let before = self.2.get();
            match a.next_key_seed(self.child(2 * i)) {
                Ok(None) => break,
                Ok(Some(s)) => out += &s,
                Err(e) if plan < 5 && self.2.get() > before => out += &format!("E<{e}>"),
                Err(e) => return Err(e),
            }
            if before > MANY {
                return Ok("ENDLESS".into());
            }
            // the key alone, or every other key alone
            if plan == 6 {
                break;
            }
            if plan == 1 || plan == 2 && i % 2 == 0 {
                out += ";";
                continue;
            }
            out += ":";
            let before = self.2.get();
            match a.next_value_seed(self.child(2 * i + 1)) {
                Ok(s) => out += &s,
                Err(e) if plan < 5 && self.2.get() > before => out += &format!("E<{e}>"),
                Err(e) => return Err(e),
            }
            out += ",";
        }
        Ok(out + "}")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        let before = self.2.get();
        let (name, v) = match a.variant_seed(Lax(mix(self.0), 1, self.2)) {
            Ok(x) => x,
            Err(e) if self.plan(2) == 0 && self.2.get() > before => return Ok(format!("variant E<{e}>")),
            Err(e) => return Err(e),
        };
        let c = LaxV(mix(self.0 ^ 3), self.1 - 1, self.2);
        if self.1 == 1 {
            return Ok("variant left".into());
        }
        let r = match mix(self.0 ^ 0xE) % 5 {
            0 => v.unit_variant().map(|()| "unit".to_string()),
            1 => v.newtype_variant_seed(self.child(1)),
            2 => v.tuple_variant(2, c),
            3 => v.struct_variant(&["a", "b"], c),
            _ => return Ok(format!("variant {name} left")),
        };
        match r {
            Ok(s) => Ok(format!("variant {name} {s}")),
            Err(e) if self.plan(2) == 0 => Ok(format!("variant {name} E<{e}>")),
            Err(e) => Err(e),
        }
    }
}

// ---- the collection under observation ---------------------------------------

struct Plan {
    /// Child indices leading to the collection.
    path: Vec<usize>,
    /// Children (keys and values counted separately) to read carelessly; None: all.
    only: Option<usize>,
    salt: u64,
    /// All keys (and all values) in the same way.
    uniform: bool,
    steps: Cell<usize>,
    log: RefCell<Vec<(usize, String)>>,
    reached: Cell<bool>,
}
thread_local!(static PLAN: RefCell<Option<Rc<Plan>>> = const { RefCell::new(None) });

struct Skip<'a>(&'a Cell<usize>);
impl<'de, 'a> DeserializeSeed<'de> for Skip<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.set(self.0.get() + 1);
        d.deserialize_ignored_any(IgnoredAny).map(|_| ())
    }
}

/// Reads (or skips) one child of the observed collection.
struct Child<'p>(&'p Plan, usize);
impl<'de, 'p> DeserializeSeed<'de> for Child<'p> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let Child(p, i) = self;
        if p.only.is_some() && p.only != Some(i) {
            return Skip(&p.steps).deserialize(d);
        }
        p.steps.set(p.steps.get() + 1);
        let own = Cell::new(0);
        let r = Lax(mix(p.salt ^ if p.uniform { i & 1 } else { i } as u64), 4, &own).deserialize(d);
        let text = match &r {
            Ok(s) => s.clone(),
            Err(e) => format!("E<{e}>"),
        };
        p.log.borrow_mut().push((i, text));
        r.map(|_| ())
    }
}

struct Top<'p>(&'p Plan, usize);
impl<'de, 'p> DeserializeSeed<'de> for Top<'p> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de, 'p> Visitor<'de> for Top<'p> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a collection")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let Top(p, level) = self;
        let here = level == p.path.len();
        if here {
            p.reached.set(true);
        }
        for i in 0.. {
            let before = p.steps.get();
            let r = if here {
                a.next_element_seed(Child(p, i))
            } else if p.path[level] == i {
                a.next_element_seed(Top(p, level + 1))
            } else {
                a.next_element_seed(Skip(&p.steps))
            };
            match r {
                Ok(Some(())) => {}
                Ok(None) => return Ok(()),
                // swallowed, unless nothing more can be read
                Err(e) if p.steps.get() == before || !here => return Err(e),
                Err(_) => {}
            }
            if i > MANY {
                p.log.borrow_mut().push((usize::MAX, "ENDLESS".into()));
                return Ok(());
            }
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let Top(p, level) = self;
        let here = level == p.path.len();
        if here {
            p.reached.set(true);
        }
        for i in 0.. {
            let before = p.steps.get();
            let k = if here { a.next_key_seed(Child(p, 2 * i)) } else { a.next_key_seed(Skip(&p.steps)) };
            match k {
                Ok(Some(())) => {}
                Ok(None) => return Ok(()),
                Err(e) if p.steps.get() == before || !here => return Err(e),
                Err(_) => {}
            }
            let before = p.steps.get();
            let v = if here {
                a.next_value_seed(Child(p, 2 * i + 1))
            } else if p.path[level] == i {
                a.next_value_seed(Top(p, level + 1))
            } else {
                a.next_value_seed(Skip(&p.steps))
            };
            match v {
                Ok(()) => {}
                Err(e) if p.steps.get() == before || !here => return Err(e),
                Err(_) => {}
            }
            if i > MANY {
                p.log.borrow_mut().push((usize::MAX, "ENDLESS".into()));
                return Ok(());
            }
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (IgnoredAny, v) = a.variant()?;
        v.newtype_variant_seed(self)
    }
}
struct TopT;
impl<'de> Deserialize<'de> for TopT {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<TopT, D::Error> {
        let p = PLAN.with(|p| p.borrow().clone()).expect("harness: no plan");
        Top(&p, 0).deserialize(d).map(|()| TopT)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Str,
    Slice,
    Reader,
    Iter,
    Owned,
    Borrowed,
    HelperText,
    HelperRecText,
    HelperRecValue,
}
const WAYS: &[Way] = &[Way::Str, Way::Slice, Way::Reader, Way::Iter, Way::Owned, Way::Borrowed, Way::HelperText, Way::HelperRecText, Way::HelperRecValue];

struct Got {
    log: Vec<(usize, String)>,
    end: String,
    reached: bool,
}
fn run(way: Way, text: &str, value: &Value, path: &[usize], only: Option<usize>, salt: u64) -> Got {
    let plan = Rc::new(Plan { path: path.to_vec(), only, salt, uniform: salt % 4 == 3, steps: Cell::new(0), log: RefCell::new(vec![]), reached: Cell::new(false) });
    PLAN.with(|p| *p.borrow_mut() = Some(plan.clone()));
    let r = match way {
        Way::Str => serde_yaml::from_str::<TopT>(text),
        Way::Slice => serde_yaml::from_slice::<TopT>(text.as_bytes()),
        Way::Reader => serde_yaml::from_reader::<_, TopT>(text.as_bytes()),
        Way::Iter => match serde_yaml::Deserializer::from_str(text).next() {
            Some(d) => TopT::deserialize(d),
            None => Ok(TopT),
        },
        Way::Owned => serde_yaml::from_value::<TopT>(value.clone()),
        Way::Borrowed => TopT::deserialize(value),
        Way::HelperText => singleton_map::deserialize::<TopT, _>(serde_yaml::Deserializer::from_str(text)),
        Way::HelperRecText => singleton_map_recursive::deserialize::<TopT, _>(serde_yaml::Deserializer::from_str(text)),
        Way::HelperRecValue => singleton_map_recursive::deserialize::<TopT, _>(value),
    };
    PLAN.with(|p| *p.borrow_mut() = None);
    let log = plan.log.borrow().clone();
    Got { log, end: shown(r.map(|_| "ok")), reached: plan.reached.get() }
}

/// The paths to the collections of a tree.
fn collections(m: &M, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    match m {
        M::Seq(v) => {
            out.push((at.clone(), v.len()));
            for (i, x) in v.iter().enumerate() {
                at.push(i);
                collections(x, at, out);
                at.pop();
            }
        }
        M::Map(v) => {
            out.push((at.clone(), 2 * v.len()));
            for (i, (_, x)) in v.iter().enumerate() {
                at.push(i);
                collections(x, at, out);
                at.pop();
            }
        }
        M::Tag(_, x) => collections(x, at, out),
        _ => {}
    }
}

fn compare(c: &mut Case, way: Way, text: &str, value: &Value, path: &[usize], salt: u64) -> R {
    let ctx = |all: &Got| format!("way {way:?}, collection at {path:?}, salt {salt:#x}\ntext {text:?}\nall: {:?} {}", all.log, all.end);
    let all = run(way, text, value, path, None, salt);
    let repeats = |g: &Got| g.end.contains("repetition limit") || g.log.iter().any(|l| l.1.contains("repetition limit"));
    if repeats(&all) {
        c.ev("repetition limit met, left out");
        return Ok(());
    }
    ensure!(!all.log.iter().any(|l| l.1.contains("ENDLESS")), "endless", "a collection never ends\n{}", ctx(&all));
    if !all.reached {
        c.ev("collection not reached");
        return Ok(());
    }
    let n = all.log.len();
    for (k, (i, got)) in all.log.iter().enumerate() {
        ensure!(*i == k, "children", "child {k} read as {i}\n{}", ctx(&all));
        if n > 12 && c.rng.chance(2, 3) || n > 100 && k + 4 < n && c.rng.chance(9, 10) {
            continue;
        }
        let one = run(way, text, value, path, Some(k), salt);
        if repeats(&one) {
            continue;
        }
        ensure!(one.log.len() == 1, "alone", "child {k} alone: read {:?} {}\n{}", one.log, one.end, ctx(&all));
        ensure!(one.log[0].1 == *got, "affected", "child {k} is {got}\nbut alone {}\n{}", one.log[0].1, ctx(&all));
        ensure!(one.end == all.end, "end", "child {k} alone ends with {}\n{}", one.end, ctx(&all));
        c.evn(if got.contains("E<") { "children with an error compared" } else if got.contains("unread") || got.contains("left") { "children left unread compared" } else { "children compared" }, 1);
    }
    // one more than the last child reads nothing, the same number of children is found
    let none = run(way, text, value, path, Some(n), salt);
    ensure!(none.log.is_empty() && none.end == all.end, "count", "skipping all children ends with {} {:?}\n{}", none.end, none.log, ctx(&all));
    c.ev(match way {
        Way::Str | Way::Slice | Way::Reader | Way::Iter => "collections of texts",
        Way::Owned | Way::Borrowed => "collections of values",
        _ => "collections through the helpers",
    });
    c.nontrivial(&(text, path, salt));
    Ok(())
}

fn document(c: &mut Case) -> (String, M) {
    let depth = c.rng.range(1, 5);
    let fuel = c.rng.range(2, 24);
    let o = texts::opts(&mut c.rng);
    let d = gen_doc(&mut c.rng, depth, fuel, o);
    (d.text, d.m)
}

fn children(c: &mut Case) -> R {
    let (text, m) = document(c);
    let value = match serde_yaml::from_str::<Value>(&text) {
        Ok(v) => Some(v),
        Err(_) => None,
    };
    let mut cols = vec![];
    collections(&m, &mut vec![], &mut cols);
    cols.retain(|x| x.1 > 1);
    if cols.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let (path, _) = c.rng.pick(&cols).clone();
        let mut way = *c.rng.pick(WAYS);
        if value.is_none() && matches!(way, Way::Owned | Way::Borrowed | Way::HelperRecValue) {
            way = Way::Str;
        }
        let salt = c.rng.next();
        compare(c, way, &text, value.as_ref().unwrap_or(&Value::Null), &path, salt)?;
    }
    c.sample(|| text.clone());
    Ok(())
}

/// Documents cut off or altered somewhere: the children before the damage.
fn damaged(c: &mut Case) -> R {
    let (mut text, m) = document(c);
    let mut at = c.rng.below(text.len() + 1);
    while !text.is_char_boundary(at) {
        at -= 1;
    }
    match c.rng.below(3) {
        0 => text.truncate(at),
        1 => text.insert_str(at, *c.rng.pick(&["]", "}", "*zz", "\"", "'", "\t", ": ", "\n- ", "\n]", "&", "@", "\n--- x\n", "!"])),
        _ => {
            text.truncate(at);
            text.push_str(*c.rng.pick(&["*zz", "]", "\n\t- x", "\"", "}", "\n--- [", "\n%YAML 9"]));
        }
    }
    let mut cols = vec![];
    collections(&m, &mut vec![], &mut cols);
    if cols.is_empty() {
        return Ok(());
    }
    let (path, _) = c.rng.pick(&cols).clone();
    let way = *c.rng.pick(&[Way::Str, Way::Slice, Way::Reader, Way::Iter, Way::HelperRecText]);
    let salt = c.rng.next();
    c.ev("damaged documents");
    compare(c, way, &text, &Value::Null, &path, salt)
}

/// Collections of hundreds of children: what little each reading might leave
/// behind adds up.
fn many(c: &mut Case) -> R {
    let n = c.rng.range(130, if c.thorough { 900 } else { 320 });
    let map = c.rng.chance(2, 3);
    let node = |r: &mut Rng, i: usize| match r.below(8) {
        0 => M::Seq(vec![M::s("a"), M::Int(i as i128)]),
        1 => M::Map(vec![(M::s("a"), M::Int(i as i128)), (M::s("b"), M::Bool(true))]),
        2 => M::Seq(vec![M::Seq(vec![M::Seq(vec![M::Int(i as i128)])])]),
        3 => M::Tag("a".into(), Box::new(M::Seq(vec![M::Int(i as i128)]))),
        4 => M::Map(vec![(M::Seq(vec![M::Int(i as i128)]), M::Map(vec![(M::s("key"), M::Null)]))]),
        5 => M::Seq(vec![M::Int(i as i128), M::Map(vec![(M::s("x"), M::Seq(vec![M::F(0.5)]))])]),
        6 => M::Tag("name".into(), Box::new(M::Map(vec![(M::Int(i as i128), M::s("a"))]))),
        _ => M::S(format!("k{i}")),
    };
    // all alike, or mixed; and a nest near the permitted depth at the end
    let alike = c.rng.chance(1, 2).then(|| c.rng.next());
    let mut at = |r: &mut Rng, i: usize| match alike {
        Some(s) => node(&mut Rng::new(s), i),
        None => node(r, i),
    };
    let deep = (0..c.rng.range(1, 90)).fold(M::s("end"), |m, i| if i % 3 == 1 { M::Map(vec![(M::s("a"), m)]) } else { M::Seq(vec![m]) });
    let mut r = c.rng.clone();
    let m = if map {
        let mut v: Vec<(M, M)> = (0..n).map(|i| (at(&mut r, i), at(&mut r, i))).collect();
        v.push((M::Seq(vec![M::Seq(vec![M::s("last")])]), deep));
        M::Map(v)
    } else {
        let mut v: Vec<M> = (0..n).map(|i| at(&mut r, i)).collect();
        v.push(deep);
        M::Seq(v)
    };
    c.rng = r;
    let value = to_val(&m);
    let text = match serde_yaml::to_string(&value) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let way = *c.rng.pick(WAYS);
    let salt = if c.rng.bool() { c.rng.next() | 3 } else { c.rng.next() };
    compare(c, way, &text, &value, &[], salt)?;
    c.ev("long collections");
    Ok(())
}

// ---- readers that take only keys --------------------------------------------

struct Keys(Vec<String>, usize);
thread_local!(static TAKE: Cell<usize> = const { Cell::new(0) });
impl<'de> Deserialize<'de> for Keys {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Keys, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Keys;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a mapping")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
                let take = TAKE.with(|t| t.get());
                let mut out = vec![];
                while out.len() < take {
                    match a.next_key::<String>()? {
                        Some(k) => out.push(k),
                        None => break,
                    }
                }
                let n = out.len();
                Ok(Keys(out, n))
            }
        }
        d.deserialize_map(V)
    }
}

fn keys_only(c: &mut Case) -> R {
    let n = c.rng.below(6);
    let mut entries: Vec<(String, M)> = vec![];
    let cfg = GenCfg { max_depth: 2, ..GenCfg::default() };
    for i in 0..n {
        entries.push((format!("k{i}"), gen_m(&mut c.rng, &cfg)));
    }
    let m = M::Map(entries.iter().map(|(k, v)| (M::s(k), v.clone())).collect());
    let value = to_val(&m);
    let Ok(text) = serde_yaml::to_string(&value) else {
        return Ok(());
    };
    // sits between other things
    let text = format!("- before\n- {}- after\n", text.trim_end().lines().map(|l| format!("{l}\n")).collect::<Vec<_>>().join("  "));
    if entries.iter().any(|e| text_has_breaks(&e.1)) {
        return Ok(());
    }
    let take = c.rng.below(n + 3);
    TAKE.with(|t| t.set(take));
    let want: Vec<String> = entries.iter().take(take).map(|e| e.0.clone()).collect();
    let ok = take >= n;
    let seq = Value::Sequence(vec![Value::from("before"), value, Value::from("after")]);
    for (which, r) in [
        ("text", serde_yaml::from_str::<(String, Keys, String)>(&text)),
        ("value", serde_yaml::from_value::<(String, Keys, String)>(seq.clone())),
        ("borrowed", <(String, Keys, String)>::deserialize(&seq)),
    ] {
        match r {
            Ok((b, Keys(got, _), a)) => {
                ensure!(ok, "keys", "{which}: {take} of {n} keys taken and no error\n{text}");
                ensure!(b == "before" && a == "after" && got == want, "keys", "{which}: keys {got:?}, wanted {want:?}, around it {b:?} {a:?}\n{text}");
                c.ev("all keys taken without the values");
            }
            Err(e) => {
                ensure!(!ok, "keys", "{which}: all {n} keys taken, but: {e}\n{text}");
                ensure!(e.to_string().contains(&format!("{n}")) || n == 0, "keys", "{which}: the error does not give the length {n}: {e}\n{text}");
                c.ev("some keys taken: wrong length");
            }
        }
    }
    c.nontrivial(&(&text, take));
    Ok(())
}
fn text_has_breaks(m: &M) -> bool {
    match m {
        M::S(s) => s.contains(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']),
        M::Seq(v) => v.iter().any(text_has_breaks),
        M::Map(v) => v.iter().any(|(k, x)| text_has_breaks(k) || text_has_breaks(x)),
        M::Tag(_, x) => text_has_breaks(x),
        _ => false,
    }
}

// ---- types that never look at their node --------------------------------------

#[derive(Debug, PartialEq)]
struct Blind;
thread_local!(static BLIND: Cell<usize> = const { Cell::new(0) });
impl<'de> Deserialize<'de> for Blind {
    fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Blind, D::Error> {
        BLIND.with(|b| b.set(b.get() + 1));
        if BLIND.with(|b| b.get()) > MANY {
            return Err(de::Error::custom("ENDLESS"));
        }
        Ok(Blind)
    }
}
fn lenient<'de, D: Deserializer<'de>, T: Deserialize<'de>>(d: D) -> Result<Option<T>, D::Error> {
    Ok(T::deserialize(d).ok())
}
#[derive(serde::Deserialize, Debug)]
struct Conf {
    #[serde(deserialize_with = "lenient")]
    list: Option<Vec<Vec<u8>>>,
    #[serde(deserialize_with = "lenient")]
    map: Option<std::collections::BTreeMap<String, (u8, bool)>>,
    skipped: Blind,
    last: String,
}

fn unread(c: &mut Case) -> R {
    let cfg = GenCfg { max_depth: 3, ..GenCfg::default() };
    BLIND.with(|b| b.set(0));
    let n = c.rng.below(8);
    let xs: Vec<Value> = (0..n).map(|_| to_val(&gen_m(&mut c.rng, &cfg))).collect();
    let Ok(text) = serde_yaml::to_string(&xs) else {
        return Ok(());
    };
    let seq = Value::Sequence(xs.clone());
    for (which, r) in [("text", serde_yaml::from_str::<Vec<Blind>>(&text)), ("value", serde_yaml::from_value(seq.clone())), ("borrowed", Vec::<Blind>::deserialize(&seq))] {
        match r {
            Ok(v) => ensure!(v.len() == n, "unread", "{which}: {} elements for {n}\n{text}", v.len()),
            Err(e) => return fail("unread", format!("{which}: {e}\n{text}")),
        }
    }
    // a configuration read leniently
    let mut any = || to_val(&gen_m(&mut c.rng, &cfg));
    let bytes = |ok: bool| serde_yaml::to_value(if ok { vec![vec![1u8, 2], vec![]] } else { vec![vec![3]] }).unwrap();
    let list = match any() {
        Value::Number(_) | Value::Bool(_) => bytes(true),
        Value::Null => Value::Sequence(vec![bytes(false), any()]),
        v => Value::Sequence(vec![Value::Sequence(vec![Value::from(1), v])]),
    };
    let map = any();
    let skipped = any();
    let solo_list = serde_yaml::from_value::<Vec<Vec<u8>>>(list.clone()).ok();
    let solo_map = serde_yaml::from_value::<std::collections::BTreeMap<String, (u8, bool)>>(map.clone()).ok();
    let mut m = serde_yaml::Mapping::new();
    for (k, v) in [("list", list), ("map", map), ("skipped", skipped), ("last", Value::from("end"))] {
        m.insert(k.into(), v);
    }
    let Ok(text) = serde_yaml::to_string(&m) else {
        return Ok(());
    };
    let v = Value::Mapping(m);
    for (which, r) in [("text", serde_yaml::from_str::<Conf>(&text)), ("value", serde_yaml::from_value(v.clone())), ("borrowed", Conf::deserialize(&v))] {
        match r {
            Ok(x) => {
                ensure!(x.last == "end" && x.skipped == Blind, "lenient", "{which}: {x:?}\n{text}");
                // text may be read as more types than the value (plain scalars as strings)
                ensure!(which == "text" || (x.list == solo_list && x.map == solo_map), "lenient", "{which}: {x:?}, alone {solo_list:?} {solo_map:?}\n{text}");
            }
            Err(e) => return fail("lenient", format!("{which}: {e}\n{text}")),
        }
    }
    c.ev("lenient configurations read");
    c.nontrivial(&text);
    Ok(())
}
