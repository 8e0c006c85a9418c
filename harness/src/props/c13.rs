//! C13: errors point at the offending place.
use crate::any::AnyM;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::raw::{self, Ev, Mk, Style, E};
use crate::texts;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer as _, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize as DeriveDe;
use serde_yaml::{Deserializer, Value};
use std::collections::BTreeMap;
use std::fmt;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "random documents (all styles, anchors, aliases, tags, comments, multi-byte text, LF/CR/CRLF, byte order mark, several documents); a random node is made to fail in a random way (visitor error before, in the middle or at the end of it, every typed request it cannot satisfy, wrong length, missing field, unknown field or variant) while everything else is read; location, path and message are compared with the node's place found by an independent event walk, by counting in the text, and (derived types) by the writer of the document; non-trivial = distinct (text, node, way)",
        assumptions: &[
            "node start marks of the parser dependency are trusted after being cross-checked by counting lines and columns in the text",
            "errors made by a visitor around an optional or newtype wrapper, or after the deserializer returned, are reported by an enclosing node or carry no place",
            "the end of an input without final line break counts as the start of the next line (parser dependency)",
            "encoding errors carry only a byte position",
        ],
        subs: vec![random("nodes", 8, nodes), random("syntax", 3, syntax), random("derived", 4, derived), random("limits", 1, limits), random("lengths", 1, lengths)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 64,
    }
}

/// Line and column (both from 1, characters) of a byte offset.
fn line_col(text: &str, index: usize) -> (usize, usize) {
    let t = &text[..index];
    let mut line = 1;
    let mut col = 1;
    let mut it = t.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        match ch {
            '\u{feff}' if i == 0 => {}
            '\r' if text[i + 1..].starts_with('\n') && i + 1 < index => {
                it.next();
                line += 1;
                col = 1;
            }
            '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                col = 1;
            }
            _ => col += 1,
        }
    }
    (line, col)
}

/// The location and the displayed place are those of `m`; the path is `path`.
fn judge(e: &serde_yaml::Error, text: &str, m: Mk, path: &str, msg: Option<&str>, ctx: &dyn Fn() -> String) -> R {
    let shown = e.to_string();
    let Some(l) = e.location() else {
        return fail("no-location", format!("error {shown:?} has no location, expected {m:?}\n{}", ctx()));
    };
    ensure!(
        (l.index(), l.line(), l.column()) == (m.index, m.line + 1, m.column + 1),
        "location",
        "error {shown:?} is located at byte {}, line {}, column {}; the node is at byte {}, line {}, column {}\n{}",
        l.index(),
        l.line(),
        l.column(),
        m.index,
        m.line + 1,
        m.column + 1,
        ctx()
    );
    display(e, text, ctx)?;
    // (a key that is itself "." shows like the root)
    if path != "." {
        ensure!(shown.starts_with(&format!("{path}: ")), "path", "error {shown:?}, expected path {path:?}\n{}", ctx());
    }
    if let Some(msg) = msg {
        let want = format!("{}{msg}{}", if path == "." { String::new() } else { format!("{path}: ") }, place(&l));
        ensure!(shown == want, "message", "error reads {shown:?}, expected {want:?}\n{}", ctx());
        let dbg = format!("{e:?}");
        ensure!(dbg.contains(&format!("line: {}, column: {}", l.line(), l.column())), "debug", "debug form {dbg:?}, location line {} column {}", l.line(), l.column());
    }
    Ok(())
}
fn place(l: &serde_yaml::Location) -> String {
    if (l.line(), l.column()) == (1, 1) {
        String::new()
    } else {
        format!(" at line {} column {}", l.line(), l.column())
    }
}
/// What every located error satisfies: the place exists in the text, its
/// parts agree, and the message shows it.
fn display(e: &serde_yaml::Error, text: &str, ctx: &dyn Fn() -> String) -> R {
    let shown = e.to_string();
    let l = e.location().unwrap();
    ensure!(l.index() <= text.len(), "beyond-input", "location {} of {shown:?} is beyond the {} bytes of input\n{}", l.index(), text.len(), ctx());
    ensure!(text.is_char_boundary(l.index()), "inside-character", "location {} of {shown:?} is inside a character\n{}", l.index(), ctx());
    if !text.get(3..).is_some_and(|t| t.contains('\u{feff}')) {
        let (a, b) = line_col(text, l.index());
        // the parser puts the end of the input on a line of its own
        let end = l.index() == text.len() && b > 1 && (a + 1, 1) == (l.line(), l.column());
        ensure!((a, b) == (l.line(), l.column()) || end, "inconsistent", "byte {} is line {a}, column {b}; {shown:?} says line {}, column {}\n{}", l.index(), l.line(), l.column(), ctx());
    }
    let p = place(&l);
    ensure!(shown.contains(&p), "not-shown", "message {shown:?} does not show{p}\n{}", ctx());
    Ok(())
}

// ------------------------------------------------------------------ nodes

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Step {
    Elem(usize),
    Key(usize),
    Val(usize),
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Poison {
    /// deserialize_any, any visit fails
    Any,
    /// the n-th typed method, any visit fails
    Typed(u8),
    /// reads n children, then fails
    After(usize),
    /// reads n children, then succeeds although there are more
    Short(usize),
    /// reads all, then fails for a missing field
    Missing,
    /// reads all, then reports the length
    Length,
    /// a real type
    Real(u8),
}
const MSG: &str = "poison";
const TYPED: u8 = 26;

struct Walk<'p> {
    steps: &'p [Step],
    poison: Poison,
    /// random choices while walking
    mode: u64,
    any: bool,
}
struct Sib(bool);
impl<'de> DeserializeSeed<'de> for Sib {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.0 {
            AnyM::deserialize(d).map(|_| ())
        } else {
            IgnoredAny::deserialize(d).map(|_| ())
        }
    }
}
struct Fails;
impl<'de> Visitor<'de> for Fails {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something else")
    }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_i128<E: de::Error>(self, _: i128) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_u128<E: de::Error>(self, _: u128) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        Err(E::custom(MSG))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Err(de::Error::custom(MSG))
    }
    fn visit_map<A: MapAccess<'de>>(self, _: A) -> Result<(), A::Error> {
        Err(de::Error::custom(MSG))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        // an unknown variant: reading the name is what fails
        struct Name;
        impl<'de> DeserializeSeed<'de> for Name {
            type Value = ();
            fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
                d.deserialize_identifier(Fails)
            }
        }
        a.variant_seed(Name).map(|_| ())
    }
}

#[derive(DeriveDe, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict {
    zeta: u8,
}
#[derive(DeriveDe, Debug)]
#[allow(dead_code)]
enum Kinds {
    Omega,
    Psi(u8),
    Chi { a: u8 },
}

fn real<'de, D: de::Deserializer<'de>>(n: u8, d: D) -> Result<(), D::Error> {
    match n {
        0 => bool::deserialize(d).map(drop),
        1 => u8::deserialize(d).map(drop),
        2 => i8::deserialize(d).map(drop),
        3 => u64::deserialize(d).map(drop),
        4 => i64::deserialize(d).map(drop),
        5 => u128::deserialize(d).map(drop),
        6 => i128::deserialize(d).map(drop),
        7 => f64::deserialize(d).map(drop),
        8 => char::deserialize(d).map(drop),
        9 => <()>::deserialize(d).map(drop),
        10 => Kinds::deserialize(d).map(drop),
        11 => Strict::deserialize(d).map(drop),
        12 => <(IgnoredAny, IgnoredAny, IgnoredAny)>::deserialize(d).map(drop),
        13 => u16::deserialize(d).map(drop),
        14 => i16::deserialize(d).map(drop),
        15 => u32::deserialize(d).map(drop),
        16 => i32::deserialize(d).map(drop),
        17 => Vec::<IgnoredAny>::deserialize(d).map(drop),
        18 => BTreeMap::<u8, u8>::deserialize(d).map(drop),
        19 => std::net::Ipv4Addr::deserialize(d).map(drop),
        20 => std::num::NonZeroU8::deserialize(d).map(drop),
        _ => String::deserialize(d).map(drop),
    }
}
const REAL: u8 = 22;

struct Part(Poison, bool);
impl<'de> Visitor<'de> for Part {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a container")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let mut n = 0;
        loop {
            match self.0 {
                Poison::After(k) if k == n => return Err(de::Error::custom(MSG)),
                Poison::Short(k) if k == n => return Ok(()),
                _ => {}
            }
            if a.next_element_seed(Sib(self.1))?.is_none() {
                break;
            }
            n += 1;
        }
        match self.0 {
            Poison::Missing => Err(de::Error::missing_field("zeta")),
            Poison::Length => Err(de::Error::invalid_length(n, &"another length")),
            _ => Err(de::Error::custom(MSG)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let mut n = 0;
        loop {
            match self.0 {
                Poison::After(k) if k == n => return Err(de::Error::custom(MSG)),
                Poison::Short(k) if k == n => return Ok(()),
                _ => {}
            }
            if a.next_key_seed(Sib(self.1))?.is_none() {
                break;
            }
            if let Poison::After(k) = self.0 {
                if k == n + 1 && k % 2 == 1 {
                    // between a key and its value
                    return Err(de::Error::custom(MSG));
                }
            }
            a.next_value_seed(Sib(self.1))?;
            n += 1;
        }
        match self.0 {
            Poison::Missing => Err(de::Error::missing_field("zeta")),
            Poison::Length => Err(de::Error::invalid_length(n, &"another length")),
            _ => Err(de::Error::custom(MSG)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        struct In(Part);
        impl<'de> DeserializeSeed<'de> for In {
            type Value = ();
            fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
                d.deserialize_any(self.0)
            }
        }
        let (_, v): (IgnoredAny, _) = a.variant()?;
        v.newtype_variant_seed(In(self))
    }
}

impl<'de, 'p> DeserializeSeed<'de> for Walk<'p> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let mut w = self;
        let m = w.mode;
        w.mode = mix(m);
        // wrappers on the way
        match m % 16 {
            0 => return d.deserialize_option(w),
            1 => return d.deserialize_newtype_struct("N", w),
            _ => {}
        }
        let Some(s) = w.steps.first() else {
            return poison(w.poison, w.any, m >> 4, d);
        };
        match (s, (m >> 4) % 4) {
            (Step::Elem(_), 0) => d.deserialize_seq(w),
            (Step::Elem(_), 1) => d.deserialize_tuple(3, w),
            (Step::Key(_) | Step::Val(_), 0) => d.deserialize_map(w),
            (Step::Key(_) | Step::Val(_), 1) => d.deserialize_struct("S", &["a"], w),
            _ => d.deserialize_any(w),
        }
    }
}
impl<'de, 'p> Visitor<'de> for Walk<'p> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "the way to {:?}", self.steps)
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deserialize(d)
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.deserialize(d)
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        // null target: the wrapper's visitor, not the node, would report
        Ok(())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let mut n = 0;
        loop {
            if self.steps[0] == Step::Elem(n) {
                a.next_element_seed(Walk { steps: &self.steps[1..], poison: self.poison, mode: self.mode, any: self.any })?;
            } else if a.next_element_seed(Sib(self.any))?.is_none() {
                return Ok(());
            }
            n += 1;
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let mut n = 0;
        loop {
            let next = || Walk { steps: &self.steps[1..], poison: self.poison, mode: self.mode, any: self.any };
            if self.steps[0] == Step::Key(n) {
                a.next_key_seed(next())?;
            } else if a.next_key_seed(Sib(self.any))?.is_none() {
                return Ok(());
            }
            if self.steps[0] == Step::Val(n) {
                a.next_value_seed(next())?;
            } else {
                a.next_value_seed(Sib(self.any))?;
            }
            n += 1;
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v): (IgnoredAny, _) = a.variant()?;
        match (self.steps[0], self.mode % 3) {
            (Step::Elem(_), 0) => v.tuple_variant(3, self),
            (Step::Key(_) | Step::Val(_), 0) => v.struct_variant(&["a"], self),
            _ => v.newtype_variant_seed(self),
        }
    }
}
fn poison<'de, D: de::Deserializer<'de>>(p: Poison, any: bool, m: u64, d: D) -> Result<(), D::Error> {
    match p {
        Poison::Any => d.deserialize_any(Fails),
        Poison::Typed(n) => match n {
            0 => d.deserialize_bool(Fails),
            1 => d.deserialize_i8(Fails),
            2 => d.deserialize_i16(Fails),
            3 => d.deserialize_i32(Fails),
            4 => d.deserialize_i64(Fails),
            5 => d.deserialize_i128(Fails),
            6 => d.deserialize_u8(Fails),
            7 => d.deserialize_u16(Fails),
            8 => d.deserialize_u32(Fails),
            9 => d.deserialize_u64(Fails),
            10 => d.deserialize_u128(Fails),
            11 => d.deserialize_f32(Fails),
            12 => d.deserialize_f64(Fails),
            13 => d.deserialize_char(Fails),
            14 => d.deserialize_str(Fails),
            15 => d.deserialize_string(Fails),
            16 => d.deserialize_unit(Fails),
            17 => d.deserialize_unit_struct("U", Fails),
            18 => d.deserialize_seq(Fails),
            19 => d.deserialize_tuple(2, Fails),
            20 => d.deserialize_tuple_struct("T", 2, Fails),
            21 => d.deserialize_map(Fails),
            22 => d.deserialize_struct("S", &["a", "b"], Fails),
            23 | 24 => d.deserialize_enum("E", &["A", "B"], Fails),
            _ => d.deserialize_identifier(Fails),
        },
        Poison::Real(n) => real(n, d),
        _ => match m % 3 {
            0 => d.deserialize_any(Part(p, any)),
            1 => d.deserialize_seq(Both(Part(p, any))),
            _ => d.deserialize_map(Both(Part(p, any))),
        },
    }
}
/// Asked for the wrong container kind first: that fails at the same node.
struct Both(Part);
impl<'de> Visitor<'de> for Both {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("one kind of container")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.0.visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.0.visit_map(a)
    }
}

struct Target {
    steps: Vec<Step>,
    /// the failing event
    at: usize,
    /// the container it is in
    parent: Option<(usize, String)>,
    /// the alias it was reached by
    alias: Option<usize>,
    path: String,
    root: bool,
    jumps: usize,
    depth: usize,
    len: usize,
}
fn skip(evs: &[E], i: usize) -> usize {
    let mut d = 0usize;
    let mut i = i;
    loop {
        match evs[i].ev {
            Ev::SeqStart { .. } | Ev::MapStart { .. } => d += 1,
            Ev::SeqEnd | Ev::MapEnd => d -= 1,
            _ => {}
        }
        i += 1;
        if d == 0 {
            return i;
        }
    }
}
fn children(evs: &[E], i: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut j = i + 1;
    while !matches!(evs[j].ev, Ev::SeqEnd | Ev::MapEnd) {
        out.push(j);
        j = skip(evs, j);
    }
    out
}
/// A random way from the root to a node.
fn pick_target(r: &mut Rng, evs: &[E], targets: &std::collections::HashMap<usize, usize>) -> Option<Target> {
    let mut t = Target { steps: vec![], at: 0, parent: None, alias: None, path: ".".into(), root: true, jumps: 0, depth: 0, len: 0 };
    let stop = r.range(0, 8);
    loop {
        while let Ev::Alias(_) = evs[t.at].ev {
            t.alias = Some(t.at);
            t.at = targets[&t.at];
            t.jumps += 1;
            if t.jumps > 40 {
                return None;
            }
        }
        let (seq, ch) = match evs[t.at].ev {
            Ev::SeqStart { .. } => (true, children(evs, t.at)),
            Ev::MapStart { .. } => (false, children(evs, t.at)),
            _ => return Some(t),
        };
        t.len = if seq { ch.len() } else { ch.len() / 2 };
        if ch.is_empty() || t.steps.len() >= stop || t.depth > 100 {
            return Some(t);
        }
        t.depth += 1;
        t.parent = Some((t.at, t.path.clone()));
        t.alias = None;
        let i = r.below(ch.len());
        if seq {
            t.steps.push(Step::Elem(i));
            t.path = format!("{}[{i}]", t.path);
            t.root = false;
        } else if i % 2 == 0 {
            t.steps.push(Step::Key(i / 2));
        } else {
            t.steps.push(Step::Val(i / 2));
            let key = match &evs[ch[i - 1]].ev {
                Ev::Scalar { value, .. } => match std::str::from_utf8(value) {
                    Ok(s) => s.to_string(),
                    Err(_) => return None,
                },
                _ => "?".to_string(),
            };
            t.path = if t.root { key } else { format!("{}.{key}", t.path) };
            t.root = false;
        }
        t.at = ch[i];
        t.len = 0;
    }
}

fn line_ends(r: &mut Rng, t: &str) -> String {
    match r.below(6) {
        0 => t.replace("\r\n", "\n").replace('\n', "\r\n"),
        1 => t.replace('\n', "\r"),
        _ => t.to_string(),
    }
}
fn gen_text(r: &mut Rng) -> String {
    let mut t = match r.below(8) {
        0 => texts::text(r),
        1 | 2 => {
            let n = r.range(2, 4);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(if i == 0 { "" } else { *r.pick(&["\n---\n", "\n--- # \u{e9}\u{4e16}\n", "\n...\n---\n"]) });
                s.push_str(&texts::valid_doc(r));
            }
            s
        }
        _ => texts::valid_doc(r),
    };
    if r.chance(1, 3) {
        t = format!("{}{t}", r.pick(&["# \u{e9}\u{4e16}\u{754c} \u{1f600}\n", "\n\n", "# c\n\n", "\u{feff}", "\u{feff}# \u{1f600}\n"]));
    }
    line_ends(r, &t)
}

fn nodes(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let text = gen_text(&mut r);
    let docs = raw::docs(text.as_bytes());
    if docs.docs.is_empty() {
        return Ok(());
    }
    let single = docs.docs.len() == 1 && docs.err.is_none();
    for _ in 0..8 {
        let k = r.below(docs.docs.len());
        let doc = &docs.docs[k];
        if doc.cut {
            continue;
        }
        let evs = &doc.events;
        let Ok(targets) = raw::alias_targets(evs) else { continue };
        let Some(t) = pick_target(&mut r, evs, &targets) else { continue };
        let any = matches!(raw::compose(evs), raw::Out::Val(_)) && r.bool();
        let e = &evs[t.at];
        let container = !matches!(e.ev, Ev::Scalar { .. });
        let p = match r.below(12) {
            0..=1 => Poison::Any,
            2..=5 => Poison::Typed(r.below(TYPED as usize) as u8),
            6..=7 if container => Poison::After(r.below(t.len + 2)),
            8 if container && t.len > 0 => Poison::Short(r.below(t.len)),
            9 if container => Poison::Missing,
            10 if container => Poison::Length,
            11 if !container => Poison::Real(r.below(REAL as usize) as u8),
            _ => Poison::Typed(r.below(TYPED as usize) as u8),
        };
        let mode = r.next();
        let w = || Walk { steps: &t.steps, poison: p, mode, any };
        let src = r.below(3);
        let ctx = || format!("poison {p:?} at {:?} (event {:?} at {:?}), document {k}, mode {mode}, source {src}, siblings read {any}\ntext {text:?}", t.steps, e.ev, e.start);
        let mut it = match src {
            0 => Deserializer::from_str(&text),
            1 => Deserializer::from_slice(text.as_bytes()),
            _ => Deserializer::from_reader(text.as_bytes()),
        };
        let res = if single && r.bool() {
            w().deserialize(it)
        } else {
            w().deserialize(it.nth(k).unwrap_or_else(|| panic!("no document {k}")))
        };
        let err = match res {
            Err(e) => e,
            Ok(()) => {
                // a null read through an optional wrapper, or a real type that fits
                ensure!(matches!(p, Poison::Real(_)) || matches!(e.ev, Ev::Scalar { .. }), "no-error", "no error was reported\n{}", ctx());
                c.ev("requests that fit");
                continue;
            }
        };
        let shown = err.to_string();
        // an alias bomb or a nested enum stops the walk elsewhere
        if shown.contains("repetition limit") || shown.contains("nested enum") || shown.contains("recursion limit") {
            c.ev("walk stopped by a limit");
            continue;
        }
        // a `!!null` scalar asked as an optional value: reported at the node as well
        let msg = match p {
            Poison::Any if shown.contains(MSG) => Some(MSG),
            _ => None,
        };
        if shown.contains("expected the way to") {
            // a wrapper met a node it cannot pass (for example a scalar read as a container)
            return fail("lost-way", format!("the walk did not reach its target: {shown}\n{}", ctx()));
        }
        // a variant named by a tag is reported by the enclosing node (pinned by the crate's tests)
        let tagged = matches!(&e.ev, Ev::Scalar { tag: Some(t), .. } | Ev::SeqStart { tag: Some(t), .. } | Ev::MapStart { tag: Some(t), .. } if t.starts_with(b"!"));
        if tagged && matches!(p, Poison::Typed(23 | 24) | Poison::Real(10)) && err.location().map(|l| l.index()) != Some(e.start.index) {
            match &t.parent {
                _ if t.alias.is_some_and(|a| err.location().is_some_and(|l| l.index() == evs[a].start.index)) => judge(&err, &text, evs[t.alias.unwrap()].start, &t.path, None, &ctx)?,
                None => ensure!(err.location().is_none(), "variant-place", "{shown:?} is located, but not at the node\n{}", ctx()),
                Some((i, path)) => judge(&err, &text, evs[*i].start, path, None, &ctx)?,
            }
            c.ev("unknown variants at the enclosing node");
            continue;
        }
        judge(&err, &text, e.start, &t.path, msg, &ctx)?;
        // the node starts where its own text starts
        let at = &text[e.start.index..];
        if let Ev::Scalar { anchor, tag, value, style } = &e.ev {
            let ok = match (anchor, tag) {
                (None, None) => match style {
                    Style::Plain => value.is_empty() || at.as_bytes().first() == value.first(),
                    Style::Single => at.starts_with('\''),
                    Style::Double => at.starts_with('"'),
                    Style::Literal => at.starts_with('|'),
                    Style::Folded => at.starts_with('>'),
                },
                _ => at.starts_with('&') || at.starts_with('!'),
            };
            ensure!(ok, "start", "no such scalar starts at byte {}: {:?}\n{}", e.start.index, at.chars().take(10).collect::<String>(), ctx());
            if e.start.line > 0 || e.start.column > 0 {
                c.ev("scalars located past the first character");
            }
        } else {
            c.ev("containers located");
        }
        if t.jumps > 0 {
            c.ev("through aliases");
        }
        if t.path.contains('?') {
            c.ev("under unnamed keys");
        }
        if k > 0 {
            c.ev("in later documents");
        }
        if text.contains('\r') {
            c.ev("with CR or CRLF");
        }
        if !text.is_ascii() {
            c.ev("with multi-byte text");
        }
        if text.starts_with('\u{feff}') {
            c.ev("with a byte order mark");
        }
        c.evn("path steps", t.steps.len() as u64);
        c.nontrivial(&(&text, k, &t.steps, p));
        c.sample(|| format!("{shown} <- {p:?} in {text:?}"));
    }
    c.rng = r;
    Ok(())
}

// ------------------------------------------------------- syntax errors

fn syntax(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut text = if r.chance(1, 4) { gen_text(&mut r) } else { texts::text(&mut r) };
    if r.chance(1, 8) {
        text = format!("\u{feff}{text}");
    }
    if r.chance(1, 4) {
        text = line_ends(&mut r, &text);
    }
    let src = r.below(3);
    c.rng = r;
    let docs = raw::docs(text.as_bytes());
    let ctx = || format!("source {src}, text {text:?}");
    // one document
    let res = match src {
        0 => serde_yaml::from_str::<AnyM>(&text),
        1 => serde_yaml::from_slice::<AnyM>(text.as_bytes()),
        _ => serde_yaml::from_reader::<_, AnyM>(text.as_bytes()),
    };
    if let Err(e) = &res {
        if e.location().is_some() && !docs.err.as_ref().is_some_and(|e| e.reader) {
            display(e, &text, &ctx)?;
        }
    }
    if docs.docs.is_empty() || (docs.docs.len() == 1 && docs.docs[0].cut) {
        if let Some(x) = &docs.err {
            let Err(e) = &res else {
                return fail("syntax-accepted", format!("the parser reports {:?}\n{}", x.problem, ctx()));
            };
            // an unknown anchor before the syntax error may be reported first
            if e.to_string().starts_with("unknown anchor") || docs.docs.first().is_some_and(|d| content_first(d, e, &x.problem)) {
                return Ok(());
            }
            syntax_error(c, e, x, &text, &ctx)?;
        }
    }
    // iterated
    let mut seen = 0;
    let it = match src {
        0 => Deserializer::from_str(&text),
        1 => Deserializer::from_slice(text.as_bytes()),
        _ => Deserializer::from_reader(text.as_bytes()),
    };
    for (k, d) in it.enumerate() {
        seen += 1;
        let res = AnyM::deserialize(d);
        let Some(doc) = docs.docs.get(k) else {
            match (&res, &docs.err) {
                (Err(e), Some(x)) => syntax_error(c, e, x, &text, &ctx)?,
                // an empty stream iterates as one empty document
                (Ok(_), None) if k == 0 => {}
                (r, x) => return fail("extra-document", format!("document {k} reads as {r:?}; the parser reports {x:?}\n{}", ctx())),
            }
            break;
        };
        if let Err(i) = raw::alias_targets(&doc.events) {
            let Err(e) = res else {
                return fail("unknown-anchor", format!("an unknown anchor was accepted\n{}", ctx()));
            };
            let m = doc.events[i].start;
            if e.to_string().starts_with("unknown anchor") {
                judge(&e, &text, m, ".", Some("unknown anchor"), &ctx)?;
                ensure!(text[m.index..].starts_with('*'), "anchor-place", "no alias at byte {}\n{}", m.index, ctx());
                c.ev("unknown anchors located");
                c.nontrivial(&text);
            } else if content_first(doc, &e, "unknown anchor") {
                display(&e, &text, &ctx)?;
            } else {
                return fail("unknown-anchor", format!("the document uses an unknown anchor, the error is {e}\n{}", ctx()));
            }
            continue;
        }
        if doc.cut {
            let x = docs.err.as_ref().unwrap();
            match &res {
                Err(e) if content_first(doc, e, &x.problem) => display(e, &text, &ctx)?,
                Err(e) => syntax_error(c, e, x, &text, &ctx)?,
                Ok(m) => return fail("cut-document", format!("document {k} is cut by {:?} but reads as {m:?}\n{}", x.problem, ctx())),
            }
            break;
        }
        if let Err(e) = &res {
            if e.location().is_some() {
                display(e, &text, &ctx)?;
                c.ev("content errors consistent");
            }
        }
    }
    c.evn("documents iterated", seen);
    Ok(())
}
/// The part of a cut document in front of the syntax error can itself be wrong.
fn content_first(d: &raw::RawDoc, e: &serde_yaml::Error, problem: &str) -> bool {
    let suspicious = d.events.iter().any(|e| match &e.ev {
        Ev::Alias(_) => true,
        Ev::Scalar { tag: Some(t), .. } => t.starts_with(b"tag:yaml.org"),
        _ => false,
    }) || d.events.len() > 128;
    suspicious && e.location().is_some() && !e.to_string().starts_with(problem)
}
fn syntax_error(c: &mut Case, e: &serde_yaml::Error, x: &raw::RawErr, text: &str, ctx: &dyn Fn() -> String) -> R {
    if x.reader {
        return Ok(());
    }
    let shown = e.to_string();
    let Some(l) = e.location() else {
        return fail("syntax-no-location", format!("syntax error {shown:?} has no location\n{}", ctx()));
    };
    ensure!(
        (l.index(), l.line(), l.column()) == (x.mark.index, x.mark.line + 1, x.mark.column + 1),
        "syntax-location",
        "{shown:?} is located at byte {} line {} column {}; the parser stopped at {:?}\n{}",
        l.index(),
        l.line(),
        l.column(),
        x.mark,
        ctx()
    );
    display(e, text, ctx)?;
    let want = format!("{}{}", x.problem, place(&l));
    ensure!(shown.starts_with(&want), "syntax-message", "message {shown:?}, expected to begin {want:?}\n{}", ctx());
    c.ev("syntax errors located");
    c.nontrivial(text);
    c.sample(|| format!("{shown} <- {text:?}"));
    Ok(())
}

// -------------------------------------------------------- derived types

#[derive(DeriveDe, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Conf {
    name: String,
    groups: BTreeMap<String, Vec<Server>>,
    limits: Limits,
    list: Vec<(u8, i16, bool)>,
}
#[derive(DeriveDe, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Server {
    host: String,
    port: u16,
    kind: Kind,
    weight: Option<f32>,
    pair: (u8, char),
}
#[derive(DeriveDe, Debug)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Limits {
    low: i8,
    high: u32,
    ratio: f64,
    on: bool,
    nothing: (),
}
#[derive(DeriveDe, Debug)]
#[serde(rename_all = "lowercase")]
#[allow(dead_code)]
enum Kind {
    Web,
    Db(u8),
    Queue { depth: u8, name: String },
    Pair(u8, i8),
}

/// Writes a Conf and remembers where it put its one mistake.
struct Wr<'a> {
    r: &'a mut Rng,
    out: String,
    line: usize,
    col: usize,
    eol: &'static str,
    /// counts down to the mistake
    left: usize,
    made: Option<(Mk, String, String)>,
    path: Vec<String>,
    /// the struct being written
    encl: Option<(Mk, String)>,
}
impl<'a> Wr<'a> {
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
        self.col += s.chars().count();
    }
    fn nl(&mut self) {
        if self.r.chance(1, 8) {
            self.put("  # \u{e9}\u{4e16}\u{1f600}");
        }
        self.out.push_str(self.eol);
        self.line += 1;
        self.col = 0;
        while self.r.chance(1, 12) {
            self.put(*self.r.clone().pick(&["# note \u{4e16}", "", "   # x"]));
            self.out.push_str(self.eol);
            self.line += 1;
            self.col = 0;
        }
    }
    fn indent(&mut self, n: usize) {
        let s = " ".repeat(n);
        self.put(&s);
    }
    fn mark(&self) -> Mk {
        Mk { index: self.out.len(), line: self.line, column: self.col }
    }
    fn here(&self) -> String {
        let mut s = String::from(".");
        for p in &self.path {
            if p.starts_with('[') {
                s.push_str(p);
            } else if s == "." {
                s = p.clone();
            } else {
                s = format!("{s}.{p}");
            }
        }
        s
    }
    fn due(&mut self) -> bool {
        if self.made.is_some() {
            return false;
        }
        if self.left == 0 {
            true
        } else {
            self.left -= 1;
            false
        }
    }
    /// A scalar: right, or wrong with its message.
    fn scalar(&mut self, good: &[&str], bad: &[(&str, &str)]) {
        let g = *self.r.pick(good);
        if !bad.is_empty() && self.due() {
            let (t, m) = *self.r.pick(bad);
            self.made = Some((self.mark(), self.here(), m.to_string()));
            self.put(t);
        } else {
            self.put(g);
        }
    }
    fn key(&mut self, k: &str) {
        self.put(k);
        self.put(": ");
        self.path.push(k.to_string());
    }
    /// Struct fields in a random order; a missing or unknown field may be the mistake.
    fn fields(&mut self, ind: usize, names: &[&'static str], first_inline: bool, f: &mut dyn FnMut(&mut Self, &'static str, usize), all: &str) {
        let start = self.mark();
        let start = if first_inline { start } else { Mk { index: start.index + ind, line: start.line, column: start.column + ind } };
        let path = self.here();
        let outer = self.encl.replace((start, path.clone()));
        let mut order: Vec<&'static str> = names.to_vec();
        for i in (1..order.len()).rev() {
            let j = self.r.below(i + 1);
            order.swap(i, j);
        }
        let optional = ["weight"];
        if self.due() {
            let i = self.r.below(order.len());
            if !optional.contains(&order[i]) {
                let gone = order.remove(i);
                self.made = Some((start, path, format!("missing field `{gone}`")));
            }
        }
        let mut inline = first_inline;
        for n in order {
            if self.made.is_none() && self.due() {
                if !inline {
                    self.indent(ind);
                }
                inline = false;
                let bad = *self.r.pick(&["zzz", "po\u{e9}t", "'q q'"]);
                let name = bad.trim_matches('\'');
                // an unknown field is reported at its key
                self.made = Some((self.mark(), self.here(), format!("unknown field `{name}`, expected {all}")));
                self.put(bad);
                self.put(": 1");
                self.nl();
            }
            if !inline {
                self.indent(ind);
            }
            inline = false;
            self.key(n);
            f(self, n, ind);
            self.path.pop();
        }
        self.encl = outer;
    }
    fn server(&mut self, ind: usize) {
        self.fields(
            ind,
            &["host", "port", "kind", "weight", "pair"],
            true,
            &mut |w, n, ind| {
                match n {
                    "host" => w.scalar(&["a.example", "'q \u{e9}'", "\"\\u00e9\"", "80"], &[("[x]", "invalid type: sequence, expected a string"), ("{a: 1}", "invalid type: map, expected a string")]),
                    "port" => w.scalar(
                        &["80", "0x50", "65535"],
                        &[
                            ("65536", "invalid value: integer `65536`, expected u16"),
                            ("-1", "invalid type: integer `-1`, expected u16"),
                            ("http", "invalid type: string \"http\", expected u16"),
                            ("'80'", "invalid type: string \"80\", expected u16"),
                            ("8.5", "invalid type: floating point `8.5`, expected u16"),
                            ("[80]", "invalid type: sequence, expected u16"),
                            ("~", "invalid type: unit value, expected u16"),
                            ("&anc 70000", "invalid value: integer `70000`, expected u16"),
                        ],
                    ),
                    "kind" => w.kind(),
                    "weight" => w.scalar(&["1.5", "~", "null", "2", ".inf"], &[("!!null heavy", "invalid value: string \"heavy\", expected null"), ("heavy", "invalid type: string \"heavy\", expected f32"), ("true", "invalid type: boolean `true`, expected f32")]),
                    _ => {
                        let m = w.mark();
                        let p = w.here();
                        if w.due() {
                            let (t, s) = *w.r.pick(&[("[1]", "invalid length 1, expected a tuple of size 2"), ("[1, x, 3]", "invalid length 3, expected sequence of 2 elements"), ("[]", "invalid length 0, expected a tuple of size 2"), ("12", "invalid type: integer `12`, expected a tuple of size 2")]);
                            w.made = Some((m, p, s.into()));
                            w.put(t);
                        } else {
                            w.put("[");
                            w.path.push("[0]".into());
                            w.scalar(&["1", "255"], &[("256", "invalid value: integer `256`, expected u8"), ("x", "invalid type: string \"x\", expected u8")]);
                            w.path.pop();
                            w.put(", ");
                            w.path.push("[1]".into());
                            w.scalar(&["x", "\u{4e16}", "'1'"], &[("xy", "invalid value: string \"xy\", expected a character"), ("\"\"", "invalid value: string \"\", expected a character")]);
                            w.path.pop();
                            w.put("]");
                        }
                    }
                }
                if n != "kind" || !w.out.ends_with(w.eol) {
                    w.nl();
                }
                let _ = ind;
            },
            "one of `host`, `port`, `kind`, `weight`, `pair`",
        );
    }
    fn kind(&mut self) {
        const ALL: &str = "one of `web`, `db`, `queue`, `pair`";
        let m = self.mark();
        let p = self.here();
        if self.due() {
            let (t, s) = match self.r.below(7) {
                0 => ("wob", format!("unknown variant `wob`, expected {ALL}")),
                1 => ("!wob 1", format!("unknown variant `wob`, expected {ALL}")),
                2 => ("!wob [1]", format!("unknown variant `wob`, expected {ALL}")),
                3 => ("{db: 1}", "invalid type: map, expected a YAML tag starting with '!'".to_string()),
                4 => ("!db x", "invalid type: string \"x\", expected u8".to_string()),
                5 => ("!pair [1]", "invalid length 1, expected tuple variant Kind::Pair with 2 elements".to_string()),
                _ => ("!queue {depth: 1}", "missing field `name`".to_string()),
            };
            // a variant named by a tag is reported by the enclosing node (pinned by the crate's tests)
            let (m, p) = if t.starts_with("!wob") { self.encl.clone().unwrap() } else { (m, p) };
            self.made = Some((m, p, s));
            self.put(t);
            return;
        }
        match self.r.below(4) {
            0 => self.put("web"),
            1 => {
                // the tag belongs to the node: a wrong payload is reported at the tag
                let m = self.mark();
                if self.due() {
                    self.made = Some((m, self.here(), "invalid value: integer `300`, expected u8".into()));
                    self.put("!db 300");
                } else {
                    self.put("!db 3");
                }
            }
            2 => {
                self.put("!queue {depth: ");
                self.path.push("depth".into());
                self.scalar(&["1"], &[("-1", "invalid type: integer `-1`, expected u8")]);
                self.path.pop();
                self.put(", name: q}");
            }
            _ => {
                self.put("!pair [");
                self.path.push("[0]".into());
                self.scalar(&["1"], &[("-1", "invalid type: integer `-1`, expected u8")]);
                self.path.pop();
                self.put(", ");
                self.path.push("[1]".into());
                self.scalar(&["-1"], &[("-129", "invalid value: integer `-129`, expected i8")]);
                self.path.pop();
                self.put("]");
            }
        }
    }
    fn conf(&mut self) {
        self.fields(
            0,
            &["name", "groups", "limits", "list"],
            false,
            &mut |w, n, _| match n {
                "name" => {
                    w.scalar(&["\u{4e16}\u{754c}", "plain", "'it''s'"], &[("[]", "invalid type: sequence, expected a string")]);
                    w.nl();
                }
                "groups" => {
                    if w.r.chance(1, 8) && w.due() {
                        w.made = Some((w.mark(), w.here(), "invalid type: integer `7`, expected a map".into()));
                        w.put("7");
                        w.nl();
                        return;
                    }
                    w.nl();
                    let n = w.r.range(1, 3);
                    for i in 0..n {
                        w.indent(2);
                        let k = format!("{}{i}", w.r.pick(&["g", "\u{4e16}", "group-"]));
                        w.key(&k);
                        w.nl();
                        let m = w.r.range(1, 3);
                        for j in 0..m {
                            w.indent(2);
                            w.put("- ");
                            w.path.push(format!("[{j}]"));
                            w.server(4);
                            w.path.pop();
                        }
                        w.path.pop();
                    }
                }
                "limits" => {
                    w.nl();
                    w.fields(
                        3,
                        &["low", "high", "ratio", "on", "nothing"],
                        false,
                        &mut |w, n, _| {
                            match n {
                                "low" => w.scalar(&["-128", "127"], &[("128", "invalid value: integer `128`, expected i8"), ("-129", "invalid value: integer `-129`, expected i8"), ("!!str x", "invalid type: string \"x\", expected i8")]),
                                "high" => w.scalar(&["0", "4294967295"], &[("4294967296", "invalid value: integer `4294967296`, expected u32"), ("99999999999999999999", "invalid type: integer `99999999999999999999` as u128, expected u32")]),
                                "ratio" => w.scalar(&["1", "0.5", ".nan"], &[("half", "invalid type: string \"half\", expected f64")]),
                                "on" => w.scalar(&["true", "FALSE"], &[("yes", "invalid type: string \"yes\", expected a boolean"), ("1", "invalid type: integer `1`, expected a boolean")]),
                                _ => w.scalar(&["~", "null"], &[("0", "invalid value: string \"0\", expected null"), ("[]", "invalid type: sequence, expected unit")]),
                            }
                            w.nl();
                        },
                        "one of `low`, `high`, `ratio`, `on`, `nothing`",
                    );
                }
                _ => {
                    w.put("[");
                    let k = w.r.range(0, 3);
                    for i in 0..k {
                        w.path.push(format!("[{i}]"));
                        let m = w.mark();
                        let p = w.here();
                        if w.due() {
                            w.made = Some((m, p, "invalid length 2, expected a tuple of size 3".into()));
                            w.put("[1, 2]");
                        } else {
                            w.put("[1, ");
                            w.path.push("[1]".into());
                            w.scalar(&["2", "-32768"], &[("32768", "invalid value: integer `32768`, expected i16")]);
                            w.path.pop();
                            w.put(", ");
                            w.path.push("[2]".into());
                            w.scalar(&["true"], &[("maybe", "invalid type: string \"maybe\", expected a boolean")]);
                            w.path.pop();
                            w.put("]");
                        }
                        w.path.pop();
                        if i + 1 < k {
                            w.put(", ");
                            if w.r.chance(1, 5) {
                                w.nl();
                                w.indent(4);
                            }
                        }
                    }
                    w.put("]");
                    w.nl();
                }
            },
            "one of `name`, `groups`, `limits`, `list`",
        );
    }
}

fn derived(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let eol = *r.pick(&["\n", "\n", "\r\n", "\r"]);
    let left = if r.chance(1, 10) { 100000 } else { r.below(60) };
    let bom = r.chance(1, 8);
    let head = *r.pick(&["", "", "---", "# \u{1f600}"]);
    let mut w = Wr { r: &mut r, out: if bom { "\u{feff}".into() } else { String::new() }, line: 0, col: 0, eol, left, made: None, path: vec![], encl: None };
    if !head.is_empty() {
        w.out.push_str(head);
        w.out.push_str(eol);
        w.line += 1;
    }
    w.conf();
    let (text, made) = (w.out, w.made);
    let src = r.below(3);
    c.rng = r;
    let res = match src {
        0 => serde_yaml::from_str::<Conf>(&text),
        1 => serde_yaml::from_slice::<Conf>(text.as_bytes()),
        _ => serde_yaml::from_reader::<_, Conf>(text.as_bytes()),
    };
    let ctx = || format!("source {src}, text {text:?}");
    match (res, made) {
        (Ok(_), None) => c.ev("correct documents read"),
        (Err(e), None) => return fail("correct-refused", format!("a correct document is refused: {e}\n{}", ctx())),
        (Ok(v), Some((m, p, s))) => return fail("mistake-accepted", format!("mistake {s:?} at {m:?} ({p}) was accepted: {v:?}\n{}", ctx())),
        (Err(e), Some((m, p, s))) => {
            judge(&e, &text, m, &p, Some(&s), &ctx)?;
            c.ev("derived mistakes located");
            c.nontrivial(&text);
            c.sample(|| format!("{e} <- {text:?}"));
        }
    }
    Ok(())
}

// --------------------------------------------------------------- limits

fn limits(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let lead = r.range(0, 3);
    let mut text = String::new();
    for _ in 0..lead {
        text.push_str("# \u{4e16}\n");
    }
    let n = r.range(129, 200);
    let style = r.below(4);
    for i in 0..n {
        match style {
            0 => text.push('['),
            1 => text.push_str("{a: "),
            2 => text.push_str(if i % 7 == 0 { "[\n " } else { "{\u{e9}: " }),
            _ => text.push_str("- "),
        }
    }
    if style == 3 {
        text.push('x');
    } else {
        let opens: Vec<char> = text.chars().filter(|c| *c == '[' || *c == '{').collect();
        for o in opens.iter().rev() {
            text.push(if *o == '[' { ']' } else { '}' });
        }
    }
    c.rng = r;
    let evs = raw::docs(text.as_bytes());
    if evs.err.is_some() {
        return Ok(());
    }
    let starts: Vec<&E> = evs.docs[0].events.iter().filter(|e| matches!(e.ev, Ev::SeqStart { .. } | Ev::MapStart { .. })).collect();
    let m = starts[128].start;
    let ctx = || format!("text {text:?}");
    let e = match serde_yaml::from_str::<Value>(&text) {
        Err(e) => e,
        Ok(_) => return fail("deep-accepted", format!("{n} levels were accepted\n{}", ctx())),
    };
    judge(&e, &text, m, ".", Some("recursion limit exceeded"), &ctx)?;
    c.ev("recursion limits located");
    c.nontrivial(&text);
    Ok(())
}

/// A container of which the target takes only the first few entries: the error
/// tells how many there are and how many were expected.
fn lengths(c: &mut Case) -> R {
    thread_local!(static TAKE: std::cell::Cell<usize> = std::cell::Cell::new(0));
    #[derive(Debug)]
    struct Few;
    struct V(usize);
    impl<'de> Visitor<'de> for V {
        type Value = Few;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "few")
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Few, A::Error> {
            for _ in 0..self.0 {
                a.next_element::<Value>()?;
            }
            Ok(Few)
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Few, A::Error> {
            for i in 0..self.0 {
                if i % 2 == 0 {
                    a.next_entry::<Value, Value>()?;
                } else if a.next_key::<Value>()?.is_some() {
                    a.next_value::<Value>()?;
                }
            }
            Ok(Few)
        }
    }
    impl<'de> Deserialize<'de> for Few {
        fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Few, D::Error> {
            d.deserialize_any(V(TAKE.with(|t| t.get())))
        }
    }
    let r = &mut c.rng;
    let n = r.range(0, 9);
    let k = r.below(n + 2);
    let map = r.bool();
    let item = |r: &mut Rng, i: usize| {
        let x = *r.pick(&["x", "[1, 2]", "{a: b}", "'q'", "~", "!t [1]", "7"]);
        if map {
            format!("k{i}: {x}")
        } else {
            x.to_string()
        }
    };
    let items: Vec<String> = (0..n).map(|i| item(r, i)).collect();
    let (a, z) = if map { ("{", "}") } else { ("[", "]") };
    let body = if n > 0 && r.bool() { items.iter().map(|i| if map { format!("    {i}\n") } else { format!("    - {i}\n") }).collect::<String>() } else { format!("    {a}{}{z}\n", items.join(", ")) };
    let doc = format!("a:\n  b:\n{body}  c: 1\n");
    TAKE.with(|t| t.set(k));
    c.nontrivial(&(&doc, k));
    type T = BTreeMap<String, BTreeMap<String, De>>;
    #[derive(DeriveDe, Debug)]
    #[serde(untagged)]
    enum Never {
        N(u8),
    }
    // the container stands at a.b; what follows it is a number
    struct De;
    impl<'de> Deserialize<'de> for De {
        fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<De, D::Error> {
            struct W;
            impl<'de> Visitor<'de> for W {
                type Value = De;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    write!(f, "few")
                }
                fn visit_u64<E>(self, _: u64) -> Result<De, E> {
                    Ok(De)
                }
                fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<De, A::Error> {
                    V(TAKE.with(|t| t.get())).visit_seq(a).map(|_| De)
                }
                fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<De, A::Error> {
                    V(TAKE.with(|t| t.get())).visit_map(a).map(|_| De)
                }
            }
            d.deserialize_any(W)
        }
    }
    let _ = |n: Never| match n {
        Never::N(x) => x,
    };
    let what = format!("{n} entries of which {k} are taken: {doc:?}");
    let one = if map { "entry" } else { "element" };
    let many = if map { "entries" } else { "elements" };
    let text = serde_yaml::from_str::<T>(&doc).map(|_| ()).map_err(|e| e.to_string());
    match &text {
        Ok(()) => ensure!(k >= n, "length-missed", "{what} succeeded"),
        Err(e) => {
            ensure!(k < n, "length-made-up", "{what} fails: {e}");
            ensure!(e.starts_with("a.b: "), "length-path", "{what} reported as {e:?}");
            ensure!(e.contains(&format!("invalid length {n}, ")), "length-total", "{what} reported as {e:?}");
            ensure!(e.contains(&format!("{k} {}", if k == 1 { one } else { many })), "length-taken", "{what} reported as {e:?}");
            c.ev("wrong lengths counted in the error");
        }
    }
    let v: Value = match serde_yaml::from_str(&doc) {
        Ok(v) => v,
        Err(e) => return fail("length-doc", format!("{doc:?}: {e}")),
    };
    let b = v["a"]["b"].clone();
    let by_ref = Few::deserialize(&b).map(|_| ()).map_err(|e| e.to_string());
    let owned = serde_yaml::from_value::<Few>(b).map(|_| ()).map_err(|e| e.to_string());
    for (way, o) in [("borrowed", by_ref), ("owned", owned)] {
        match o {
            Ok(()) => ensure!(k >= n, "length-missed", "{what} succeeded from a {way} value"),
            Err(e) => ensure!(k < n && e.contains(&format!("invalid length {n}, ")), "length-total", "{what} from a {way} value reported as {e:?}"),
        }
    }
    Ok(())
}
