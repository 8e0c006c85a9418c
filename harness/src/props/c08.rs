//! C08: nesting depth and alias expansion are bounded.
use crate::any::AnyM;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::raw;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::Value;
use std::cell::Cell;
use std::fmt;
use std::fmt::Write as _;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "every depth 1..170 (thorough: 1..400) and some large ones for 12 ways of nesting × 5 targets, random mixtures around the limit with the depth computed by an independent composer, self references, random alias graphs with the exact number of containers and expansions computed by dynamic programming and counted by the visitors on every deserialization method, bombs and deep trees in ignored positions read on a 320 KiB stack; non-trivial = distinct documents",
        assumptions: &[
            "the expansion limit is taken as a fixed multiple of the number of parse events: below 50 times it must parse, above 200 times it must fail; between them nothing is required",
            "newtype structs count towards the depth; only types without them are held to exactly 128 containers",
        ],
        subs: vec![
            exhaustive("threshold", |t| (KINDS * if t { 400 } else { 170 } + KINDS * DEEP.len()) as u64, threshold),
            random("mixed", 4, mixed),
            random("self_reference", 1, self_reference),
            random("bombs", 6, bombs),
            random("bomb_streams", 1, bomb_streams),
            random("ignored", 2, ignored),
        ],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 64,
    }
}

const LIMIT: usize = 128;
const KINDS: usize = 12;
const DEEP: &[usize] = &[500, 1000, 2000, 5000];

fn nest(kind: usize, d: usize) -> String {
    let mut s = String::new();
    match kind {
        0 => {
            s.push_str(&"[".repeat(d));
            s.push_str(&"]".repeat(d));
        }
        1 => {
            for _ in 1..d {
                s.push_str("{a: ");
            }
            s.push_str("{}");
            s.push_str(&"}".repeat(d - 1));
        }
        2 => {
            s.push_str(&"- ".repeat(d - 1));
            s.push_str("[]");
        }
        3 => {
            for i in 1..d {
                let _ = write!(s, "{}a:\n", " ".repeat(i - 1));
            }
            s.pop();
            s.push_str(" {}");
        }
        4 => {
            // nesting inside keys
            s.push_str(&"? ".repeat(d));
            s.push('x');
        }
        5 => {
            for i in 0..d {
                s.push_str(if i % 2 == 0 { "[" } else { "{a: " });
            }
            s.push('x');
            for i in (0..d).rev() {
                s.push_str(if i % 2 == 0 { "]" } else { "}" });
            }
        }
        6 => {
            for p in 0..d / 2 {
                let _ = write!(s, "{}- a:\n", " ".repeat(4 * p));
            }
            if d % 2 == 1 {
                let _ = write!(s, "{}- x", " ".repeat(4 * (d / 2)));
            }
        }
        7 => {
            for _ in 0..d {
                s.push_str("!t [");
            }
            s.push_str(&"]".repeat(d));
        }
        8 => {
            // siblings before and after
            for _ in 0..d {
                s.push_str("[[], b, ");
            }
            for _ in 0..d {
                s.push_str(", []]");
            }
            s = s.replacen(", , ", ", ", 1);
        }
        9 => {
            // each level one alias deeper
            s.push_str("- &a1 [x]\n");
            for i in 2..d {
                let _ = writeln!(s, "- &a{i} [*a{}]", i - 1);
            }
            if d == 1 {
                s = "[]".into();
            }
        }
        10 => {
            // half in the anchor, half around the alias
            let h = d / 2;
            let _ = write!(s, "- &a {}{}\n- ", "[".repeat(h), "]".repeat(h));
            let rest = d - 1 - h.min(d - 1);
            let _ = write!(s, "{}*a{}", "[".repeat(rest), "]".repeat(rest));
            if d == 1 {
                s = "[]".into();
            }
        }
        _ => {
            for i in 1..d {
                let _ = write!(s, "&n{i} {{? k{i} : ");
            }
            s.push_str("{}");
            s.push_str(&"}".repeat(d - 1));
        }
    }
    s.push('\n');
    s
}
/// Depth of the document above, in containers.
fn expected_depth(kind: usize, d: usize) -> usize {
    match kind {
        8 => d + 1,
        _ => d,
    }
}

fn is_recursion(e: &serde_yaml::Error) -> bool {
    e.to_string().contains("recursion limit exceeded")
}
fn verdict<T>(what: &str, doc: &str, depth: usize, r: Result<T, serde_yaml::Error>) -> R {
    let short = || if doc.len() > 400 { format!("{}…", doc.chars().take(400).collect::<String>()) } else { doc.to_string() };
    match r {
        Ok(_) => ensure!(depth <= LIMIT, &format!("too-deep {what}"), "depth {depth} was accepted as {what}: {:?}", short()),
        Err(e) => {
            ensure!(depth > LIMIT, &format!("refused {what}"), "depth {depth} was refused as {what}: {e}: {:?}", short());
            ensure!(is_recursion(&e), &format!("wrong error {what}"), "depth {depth} as {what}: not a recursion-limit error: {e}: {:?}", short());
        }
    }
    Ok(())
}

fn threshold(c: &mut Case, idx: u64) -> R {
    let i = idx as usize;
    let n = if c.thorough { 400 } else { 170 };
    let (kind, d) = if i < KINDS * n { (i % KINDS, i / KINDS + 1) } else { ((i - KINDS * n) % KINDS, DEEP[(i - KINDS * n) / KINDS]) };
    if d > 400 && matches!(kind, 3 | 6 | 9) {
        return Ok(()); // quadratic text
    }
    let doc = nest(kind, d);
    let depth = expected_depth(kind, d);
    c.nontrivial(&doc);
    c.evn("depths tried", 1);
    if depth == LIMIT || depth == LIMIT + 1 {
        c.ev("at the limit");
    }
    if depth == LIMIT + 1 {
        c.sample(|| doc.clone());
    }
    let v = serde_yaml::from_str::<Value>(&doc);
    // a tag adds no container
    verdict("a value", &doc, depth, v)?;
    verdict("a self-describing reader", &doc, depth, serde_yaml::from_slice::<AnyM>(doc.as_bytes()))?;
    verdict("a value from a reader", &doc, depth, serde_yaml::from_reader::<_, Value>(doc.as_bytes()))?;
    let d = serde_yaml::Deserializer::from_str(&doc).next().unwrap();
    verdict("a value from the iterator", &doc, depth, Value::deserialize(d))?;
    match kind {
        0 | 2 | 10 => verdict("nested vectors", &doc, depth, with(Hint::Seq, || serde_yaml::from_str::<Probe>(&doc)).0)?,
        1 | 3 | 11 => {
            verdict("nested maps", &doc, depth, with(Hint::Map, || serde_yaml::from_str::<Probe>(&doc)).0)?;
            verdict("nested structs", &doc, depth, with(Hint::Struct, || serde_yaml::from_str::<Probe>(&doc)).0)?;
        }
        7 => verdict("nested enums", &doc, depth, with(Hint::Enum, || serde_yaml::from_str::<Probe>(&doc)).0)?,
        _ => {}
    }
    if matches!(kind, 0 | 2 | 10) {
        verdict("nested tuples", &doc, depth, with(Hint::Tuple, || serde_yaml::from_str::<Probe>(&doc)).0)?;
        verdict("nested options", &doc, depth, with(Hint::Option, || serde_yaml::from_str::<Probe>(&doc)).0)?;
    }
    // skipping is not limited
    let r = serde_yaml::from_str::<IgnoredAny>(&doc);
    ensure!(r.is_ok(), "ignored", "depth {depth} cannot be skipped: {}", r.unwrap_err());
    Ok(())
}

/// A random nest with the deepest path near the limit.
fn mixed(c: &mut Case) -> R {
    let r = &mut c.rng;
    let d = match r.below(4) {
        0 => LIMIT,
        1 => LIMIT + 1,
        2 => r.range(100, 160),
        _ => r.range(1, 300),
    };
    let mut open = String::new();
    let mut close: Vec<String> = Vec::new();
    let mut anchors = 0;
    for i in 0..d {
        let props = match r.below(8) {
            0 => "!t ".to_string(),
            1 => {
                anchors += 1;
                format!("&n{i} ")
            }
            2 => format!("!t &m{i} "),
            _ => String::new(),
        };
        let sib = *r.pick(&["", "", "", "s, ", "[], ", "[[], [[]]], ", "{}, ", "~, "]);
        let after = *r.pick(&["", "", "", ", s", ", []", ", {a: [[]]}"]);
        if r.bool() {
            open.push_str(&format!("{props}[{sib}"));
            close.push(format!("{after}]"));
        } else if r.chance(1, 4) {
            open.push_str(&format!("{props}{{? "));
            close.push(" : v}".to_string());
        } else {
            let pre = if r.bool() { "" } else { "z: [[]], " };
            open.push_str(&format!("{props}{{{pre}k: "));
            close.push(if r.bool() { "}".into() } else { ", y: [[[]]]}".to_string() });
        }
    }
    let leaf = *r.pick(&["x", "[]", "'q'", "~", "{}"]);
    let mut doc = open + leaf;
    for x in close.into_iter().rev() {
        doc.push_str(&x);
    }
    doc.push('\n');
    let _ = anchors;
    let depth = raw_depth(&doc);
    c.nontrivial(&doc);
    c.ev(if depth > LIMIT { "too deep" } else { "within the limit" });
    if depth == LIMIT || depth == LIMIT + 1 {
        c.ev("exactly at the limit");
    }
    verdict("a value", &doc, depth, serde_yaml::from_str::<Value>(&doc))?;
    verdict("a self-describing reader", &doc, depth, serde_yaml::from_reader::<_, AnyM>(doc.as_bytes()))?;
    let r = serde_yaml::from_str::<IgnoredAny>(&doc);
    ensure!(r.is_ok(), "ignored", "cannot be skipped: {}", r.unwrap_err());
    // skipping part of it: one level taken, the rest ignored
    if let Ok(m) = serde_yaml::from_str::<OneLevel>(&doc) {
        ensure!(m.0, "ignored", "one level");
        c.ev("one level read, the rest skipped");
    } else {
        return fail("ignored", format!("depth {depth}: reading one level and skipping the rest fails: {doc}"));
    }
    Ok(())
}
/// Depth from the raw events (no aliases expanded; the documents above use none).
fn raw_depth(doc: &str) -> usize {
    let mut d = 0usize;
    let mut max = 0;
    for e in raw::parse(doc.as_bytes()).events {
        match e.ev {
            raw::Ev::SeqStart { .. } | raw::Ev::MapStart { .. } => {
                d += 1;
                max = max.max(d);
            }
            raw::Ev::SeqEnd | raw::Ev::MapEnd => d -= 1,
            _ => {}
        }
    }
    max
}
struct OneLevel(bool);
impl<'de> Deserialize<'de> for OneLevel {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = OneLevel;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<OneLevel, A::Error> {
                while a.next_element::<IgnoredAny>()?.is_some() {}
                Ok(OneLevel(true))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<OneLevel, A::Error> {
                while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
                Ok(OneLevel(true))
            }
            fn visit_str<E>(self, _: &str) -> Result<OneLevel, E> {
                Ok(OneLevel(true))
            }
            fn visit_unit<E>(self) -> Result<OneLevel, E> {
                Ok(OneLevel(true))
            }
            fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<OneLevel, A::Error> {
                let (_, v) = a.variant::<IgnoredStr>()?;
                v.newtype_variant::<IgnoredAny>()?;
                Ok(OneLevel(true))
            }
        }
        d.deserialize_any(V)
    }
}
struct IgnoredStr;
impl<'de> Deserialize<'de> for IgnoredStr {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d).map(|_| IgnoredStr)
    }
}

fn self_reference(c: &mut Case) -> R {
    let r = &mut c.rng;
    let a = gen_anchor(r);
    let inner = match r.below(10) {
        0 => format!("&{a} [*{a}]"),
        1 => format!("&{a} {{k: *{a}}}"),
        2 => format!("&{a} [x, [y, *{a}], z]"),
        3 => format!("&{a} {{k: [1, {{l: *{a}}}], m: 2}}"),
        4 => format!("&{a} [&b [*{a}, *b]]"),
        5 => format!("&{a} !t [*{a}]"),
        6 => format!("&{a} {{? [*{a}] : v}}"),
        7 => format!("&{a} [&{a}2 {{k: *{a}}}, *{a}2]"),
        8 => format!("&{a} {{<<: *{a}, k: 1}}"),
        _ => format!("&{a} [{}*{a}{}]", "[".repeat(r.range(1, 100)), "]".repeat(0)),
    };
    let n = inner.matches('[').count() - inner.matches(']').count();
    let inner = inner + &"]".repeat(n);
    let doc = match r.below(4) {
        0 => format!("{inner}\n"),
        1 => format!("pre: 1\nx: {inner}\npost: 2\n"),
        2 => format!("- {inner}\n- 2\n"),
        _ => format!("--- {inner}\n...\n"),
    };
    c.nontrivial(&doc);
    c.sample(|| doc.clone());
    for (w, r) in [
        ("value", serde_yaml::from_str::<Value>(&doc).map(|_| ())),
        ("self-describing reader", serde_yaml::from_str::<AnyM>(&doc).map(|_| ())),
        ("reader", serde_yaml::from_reader::<_, Value>(doc.as_bytes()).map(|_| ())),
    ] {
        match r {
            Ok(()) => return fail("self-reference", format!("{w}: accepted {doc:?}")),
            Err(e) => ensure!(is_recursion(&e) || e.to_string().contains("repetition limit"), "self-reference-error", "{w}: {doc:?}: {e}"),
        }
    }
    let r = serde_yaml::from_str::<IgnoredAny>(&doc);
    ensure!(r.is_ok(), "ignored", "{doc:?} cannot be skipped: {}", r.unwrap_err());
    // types that recurse without looking at the input
    let r = serde_yaml::from_str::<RecNew>(&doc);
    ensure!(r.is_err(), "endless type", "{doc:?}: {r:?}");
    c.ev("self references ended in an error");
    Ok(())
}
#[allow(dead_code)]
#[derive(Deserialize, Debug)]
struct RecNew(Box<RecNew>);
fn gen_anchor(r: &mut Rng) -> String {
    (*r.pick(&["a", "anchor", "A1", "x-y", "0"])).to_string()
}

// ------------------------------------------------------------ alias graphs

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Any,
    Seq,
    Tuple,
    TupleStruct,
    Option,
    Newtype,
    Map,
    Struct,
    Enum,
    EnumTuple,
    EnumStruct,
}
thread_local! {
    static HINT: Cell<Hint> = Cell::new(Hint::Any);
    static SEEN: Cell<u64> = Cell::new(0);
}
/// Run with the given way of reading; also returns the containers visited.
fn with<T>(h: Hint, f: impl FnOnce() -> T) -> (T, u64) {
    HINT.with(|x| x.set(h));
    SEEN.with(|x| x.set(0));
    let t = f();
    (t, SEEN.with(|x| x.get()))
}
fn seen() {
    SEEN.with(|x| x.set(x.get() + 1));
}
/// Visits every container, storing nothing.
pub struct Probe;
impl<'de> Deserialize<'de> for Probe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match HINT.with(|x| x.get()) {
            Hint::Any => d.deserialize_any(ProbeV),
            Hint::Seq => d.deserialize_seq(ProbeV),
            Hint::Tuple => d.deserialize_tuple(3, ProbeV),
            Hint::TupleStruct => d.deserialize_tuple_struct("T", 3, ProbeV),
            Hint::Option => d.deserialize_option(ProbeV),
            Hint::Newtype => d.deserialize_newtype_struct("N", ProbeV),
            Hint::Map => d.deserialize_map(ProbeV),
            Hint::Struct => d.deserialize_struct("S", &["a", "b"], ProbeV),
            Hint::Enum | Hint::EnumTuple | Hint::EnumStruct => d.deserialize_enum("E", &["t"], ProbeV),
        }
    }
}
struct ProbeV;
impl<'de> Visitor<'de> for ProbeV {
    type Value = Probe;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Probe, A::Error> {
        seen();
        loop {
            // leaves are strings
            match a.next_element_seed(Child)? {
                Some(()) => {}
                None => return Ok(Probe),
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Probe, A::Error> {
        seen();
        while a.next_key::<IgnoredAny>()?.is_some() {
            a.next_value_seed(Child)?;
        }
        Ok(Probe)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        let (_, v) = a.variant::<String>()?;
        match HINT.with(|x| x.get()) {
            Hint::EnumTuple => v.tuple_variant(3, ProbeV),
            Hint::EnumStruct => v.struct_variant(&["a", "b"], ProbeV),
            _ => v.newtype_variant_seed(Any),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        d.deserialize_any(ProbeV)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        d.deserialize_any(ProbeV)
    }
    fn visit_str<E>(self, _: &str) -> Result<Probe, E> {
        Ok(Probe)
    }
    fn visit_unit<E>(self) -> Result<Probe, E> {
        Ok(Probe)
    }
    fn visit_none<E>(self) -> Result<Probe, E> {
        Ok(Probe)
    }
    fn visit_i64<E>(self, _: i64) -> Result<Probe, E> {
        Ok(Probe)
    }
    fn visit_u64<E>(self, _: u64) -> Result<Probe, E> {
        Ok(Probe)
    }
}
/// A child: a scalar leaf is read as one, everything else through the hint.
struct Child;
impl<'de> DeserializeSeed<'de> for Child {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        Probe::deserialize(d).map(|_| ())
    }
}
struct Any;
impl<'de> DeserializeSeed<'de> for Any {
    type Value = Probe;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        d.deserialize_any(ProbeV)
    }
}

/// A document of anchored containers that refer to earlier ones, with the
/// exact number of containers and expansions reading it takes.
struct Graph {
    doc: String,
    containers: u128,
    expansions: u128,
    events: usize,
    seqs: bool,
    tagged: bool,
}
fn graph(r: &mut Rng) -> Graph {
    let seqs = r.bool();
    let tagged = r.chance(1, 3);
    let n = match r.below(6) {
        0 => r.range(1, 4),
        1..=3 => r.range(3, 14),
        4 => r.range(10, 40),
        _ => r.range(1, 60),
    };
    let width = match r.below(4) {
        0 => 2,
        1 => r.range(1, 4),
        2 => r.range(1, 12),
        _ => r.range(1, 40),
    };
    let near_only = r.bool();
    let tag = if tagged { "!t " } else { "" };
    // one entry per anchored container: (containers when read, expansions when read, depth)
    let mut info: Vec<(u128, u128, usize)> = Vec::new();
    let mut doc = String::new();
    let (mut cont, mut exp) = (1u128, 0u128); // the root
    let mut events = 4; // document and root start/end
    for i in 0..n {
        let mut node = String::new();
        let (mut c1, mut e1, mut depth) = (1u128, 0u128, 1);
        events += 2 + !seqs as usize; // this container, and its key in the root
        let k = if i == 0 { r.below(2) } else { r.range(1, width) };
        for j in 0..k {
            let child = if i > 0 && (r.chance(4, 5) || j == 0) {
                let t = if near_only || r.bool() { i - 1 } else { r.below(i) };
                let (c2, e2, d2) = info[t];
                if d2 + 1 > 100 {
                    events += 2;
                    c1 += 1;
                    depth = depth.max(2);
                    format!("{tag}{}", if seqs { "[]" } else { "{}" })
                } else {
                    events += 1;
                    c1 = c1.saturating_add(c2);
                    e1 = e1.saturating_add(1).saturating_add(e2);
                    depth = depth.max(1 + d2);
                    format!("*a{t}")
                }
            } else {
                events += 2;
                c1 += 1;
                depth = depth.max(2);
                format!("{tag}{}", if seqs { "[]" } else { "{}" })
            };
            if j > 0 {
                node.push_str(", ");
            }
            if seqs {
                node.push_str(&child);
            } else {
                events += 1;
                let _ = write!(node, "k{j}: {child}");
            }
        }
        if c1 > 1 << 100 {
            c1 = 1 << 100;
        }
        if e1 > 1 << 100 {
            e1 = 1 << 100;
        }
        info.push((c1, e1, depth));
        cont = cont.saturating_add(c1);
        exp = exp.saturating_add(e1);
        if seqs {
            let _ = writeln!(doc, "- {tag}&a{i} [{node}]");
        } else {
            let _ = writeln!(doc, "k{i}: {tag}&a{i} {{{node}}}");
        }
    }
    // the root itself is an enum too when tagged
    if tagged {
        doc = format!("--- !t\n{doc}");
    }
    Graph { doc, containers: cont, expansions: exp, events, seqs, tagged }
}

fn check_graph(c: &mut Case, g: &Graph) -> R {
    let e = g.events as u128;
    let must_fail = g.expansions > 200 * e;
    let must_pass = g.expansions < 50 * e;
    let mut hints = vec![Hint::Any, Hint::Option, Hint::Newtype];
    if g.tagged {
        hints.push(Hint::Enum);
        hints.push(if g.seqs { Hint::EnumTuple } else { Hint::EnumStruct });
    } else if g.seqs {
        hints.extend([Hint::Seq, Hint::Tuple, Hint::TupleStruct]);
    } else {
        hints.extend([Hint::Map, Hint::Struct]);
    }
    let bound = (200 * e + 1) * (e + 2);
    let h = *c.rng.pick(&hints);
    let doc = &g.doc;
    let route = c.rng.below(4);
    let (r, n) = with(h, || match route {
        0 => serde_yaml::from_slice::<Probe>(doc.as_bytes()),
        1 => serde_yaml::from_reader::<_, Probe>(doc.as_bytes()),
        2 => Probe::deserialize(serde_yaml::Deserializer::from_str(doc).next().unwrap()),
        _ => serde_yaml::from_str::<Probe>(doc),
    });
    ensure!((n as u128) <= bound, &format!("unbounded {h:?}"), "{n} containers visited as {h:?} for {} events: {doc}", g.events);
    match &r {
        Ok(_) => {
            ensure!(!must_fail, &format!("unbounded {h:?}"), "{} expansions accepted as {h:?} for {} events ({n} containers visited): {doc}", g.expansions, g.events);
            ensure!(n as u128 == g.containers, &format!("count {h:?}"), "as {h:?} {n} containers were visited instead of {}: {doc}", g.containers);
            c.ev("parsed, exact container count");
        }
        Err(x) => {
            ensure!(!must_pass, &format!("refused {h:?}"), "{} expansions for {} events refused as {h:?}: {x}: {doc}", g.expansions, g.events);
            ensure!(x.to_string().contains("repetition limit"), &format!("wrong error {h:?}"), "as {h:?}: {x}: {doc}");
            c.ev("repetition limit");
        }
    }
    c.evn("containers visited", n);
    c.ev(match h {
        Hint::Any => "read as anything",
        Hint::Enum | Hint::EnumTuple | Hint::EnumStruct => "read as enums",
        Hint::Option => "read as options",
        Hint::Newtype => "read as newtypes",
        Hint::Map | Hint::Struct => "read as maps or structs",
        _ => "read as sequences or tuples",
    });
    Ok(())
}

fn bombs(c: &mut Case) -> R {
    let g = graph(&mut c.rng);
    c.nontrivial(&g.doc);
    c.sample(|| format!("{} expansions, {} events: {}", g.expansions, g.events, g.doc));
    let raw = raw::parse(g.doc.as_bytes()).events.len();
    assert!(raw == g.events, "harness: {} events counted, {raw} parsed: {}", g.events, g.doc);
    check_graph(c, &g)?;
    if g.expansions < 20_000 || g.expansions > 200 * g.events as u128 {
        // the untyped value, too
        match serde_yaml::from_str::<Value>(&g.doc) {
            Ok(v) => {
                ensure!(g.expansions <= 200 * g.events as u128, "unbounded value", "{} expansions accepted for {} events: {}", g.expansions, g.events, g.doc);
                let n = containers(&v);
                ensure!(n as u128 == g.containers, "count value", "the value has {n} containers instead of {}: {}", g.containers, g.doc);
            }
            Err(e) => {
                ensure!(g.expansions >= 50 * g.events as u128, "refused value", "{} expansions for {} events refused: {e}: {}", g.expansions, g.events, g.doc);
                ensure!(e.to_string().contains("repetition limit"), "wrong error value", "{e}: {}", g.doc);
            }
        }
    }
    Ok(())
}
fn containers(v: &Value) -> u64 {
    match v {
        Value::Sequence(s) => 1 + s.iter().map(containers).sum::<u64>(),
        Value::Mapping(m) => 1 + m.iter().map(|(k, v)| containers(k) + containers(v)).sum::<u64>(),
        Value::Tagged(t) => containers(&t.value),
        _ => 0,
    }
}

/// The limits are per document.
fn bomb_streams(c: &mut Case) -> R {
    let mut gs = Vec::new();
    let mut text = String::new();
    for _ in 0..c.rng.range(2, 5) {
        let g = graph(&mut c.rng);
        if g.expansions >= 50 * g.events as u128 && g.expansions <= 200 * g.events as u128 {
            continue;
        }
        if !g.tagged {
            text.push_str("---\n");
        }
        text.push_str(&g.doc);
        gs.push(g);
    }
    c.nontrivial(&text);
    let mut docs = 0;
    for (d, g) in serde_yaml::Deserializer::from_str(&text).zip(&gs) {
        docs += 1;
        let (r, n) = with(Hint::Any, || Probe::deserialize(d));
        if g.expansions < 50 * g.events as u128 {
            ensure!(r.is_ok(), "stream-refused", "a document of a stream is refused: {}\n{text}", r.err().unwrap());
            ensure!(n as u128 == g.containers, "stream-count", "{n} containers visited instead of {}\n{text}", g.containers);
        } else {
            ensure!(r.is_err(), "stream-unbounded", "{} expansions accepted for {} events\n{text}", g.expansions, g.events);
        }
    }
    ensure!(docs == gs.len(), "stream-documents", "{docs} documents instead of {}\n{text}", gs.len());
    c.ev("streams of bombs");
    Ok(())
}

fn ignored(c: &mut Case) -> R {
    let r = &mut c.rng;
    let deep = match r.below(40) {
        0 => 20_000,
        1..=9 => r.range(100, 2000),
        _ => r.range(2000, 6000),
    };
    let junk = match r.below(6) {
        0 => format!("{}{}", "[".repeat(deep), "]".repeat(deep)),
        1 => {
            let d = deep.min(20_000);
            format!("{}x{}", "{a: ".repeat(d), "}".repeat(d))
        }
        2 => {
            let mut s = String::from("[&b0 [x]");
            for i in 1..r.range(30, 120) {
                let _ = write!(s, ", &b{i} [*b{}, *b{}, *b{}]", i - 1, i - 1, i - 1);
            }
            s + "]"
        }
        3 => "&loop [*loop, {k: *loop}]".to_string(),
        4 => format!("{}!u x{}", "!t [".repeat(deep.min(20_000)), "]".repeat(deep.min(20_000))),
        _ => {
            let d = deep.min(20_000);
            format!("{}x{}", "[{? ".repeat(d / 2), " : y}]".repeat(d / 2))
        }
    };
    let place = r.below(5);
    let doc = match place {
        0 => junk.clone(),
        1 => format!("{{known: 1, junk: {junk}, other: 2}}"),
        2 => format!("{{junk: {junk}, known: 1, other: 2}}"),
        3 => format!("{{known: 1, other: 2, ? {junk} : v}}"),
        _ => format!("[1, {junk}, 2]"),
    } + "\n";
    c.nontrivial(&doc);
    // on a small stack: one that recursion in proportion to the depth would overflow
    let out = std::thread::Builder::new()
        .stack_size(320 << 10)
        .spawn(move || -> Result<(), String> {
            let e = |e: serde_yaml::Error| e.to_string();
            match place {
                0 => serde_yaml::from_str::<IgnoredAny>(&doc).map(|_| ()).map_err(e),
                1 | 2 | 3 => {
                    let k: Known = serde_yaml::from_str(&doc).map_err(e)?;
                    if (k.known, k.other) == (1, 2) {
                        Ok(())
                    } else {
                        Err(format!("{:?}", (k.known, k.other)))
                    }
                }
                _ => {
                    let k: (u8, IgnoredAny, u8) = serde_yaml::from_str(&doc).map_err(e)?;
                    if (k.0, k.2) == (1, 2) {
                        Ok(())
                    } else {
                        Err(format!("{:?}", (k.0, k.2)))
                    }
                }
            }
        })
        .unwrap()
        .join();
    match out {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("ignored", format!("a value that is skipped made reading fail: {e}: {}", short(&junk))),
        Err(_) => return fail("ignored-panic", format!("skipping panicked: {}: {}", last_panic(), short(&junk))),
    }
    c.ev("skipped on a small stack");
    Ok(())
}
fn short(s: &str) -> String {
    s.chars().take(200).collect()
}
/// Ignores unknown fields, with keys of any kind.
struct Known {
    known: u8,
    other: u8,
}
impl<'de> Deserialize<'de> for Known {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Known;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Known, A::Error> {
                let mut k = Known { known: 0, other: 0 };
                let mut n = 0;
                loop {
                    if n < 2 || k.known == 0 {
                        match a.next_key::<String>() {
                            Ok(Some(s)) => match &s[..] {
                                "known" => k.known = a.next_value()?,
                                "other" => k.other = a.next_value()?,
                                _ => {
                                    a.next_value::<IgnoredAny>()?;
                                }
                            },
                            Ok(None) => break,
                            Err(e) => return Err(e),
                        }
                        n += 1;
                    } else if a.next_key::<IgnoredAny>()?.is_some() {
                        let v: AnyM = a.next_value()?;
                        if let M::Int(i) = v.0 {
                            k.other = i as u8;
                        }
                    } else {
                        break;
                    }
                }
                Ok(k)
            }
        }
        d.deserialize_map(V)
    }
}
#[allow(dead_code)]
fn unused<E: de::Error>() {}
