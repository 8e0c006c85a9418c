//! C18: borrowed strings lie in the input and carry the decoded content.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::raw;
use crate::texts;
use serde::de::{DeserializeSeed, Deserializer as _, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::Value;
use std::cell::RefCell;
use std::fmt;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "documents in every scalar style with tags, anchors, aliases, keys, multi-byte text, byte order marks, several documents, hostile and broken texts, read by visitors that record every borrowed string under random deserialize_* requests; each borrow must lie in the input, be UTF-8, equal the decoded scalar of the raw event stream and survive the deserializer; scalars standing verbatim at their place must be borrowable as &str and all others refused or copied; the same requests through a reader must give equal text and no borrow; borrows from values; non-trivial = distinct documents with at least one borrow",
        assumptions: &[],
        subs: vec![random("walk", 8, walk), random("strict", 5, strict), random("any-text", 5, any_text), random("typed", 3, typed), random("values", 2, values)],
        quick_secs: 25.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

/// The structure of a document from the raw events.
#[derive(Debug)]
enum Sh {
    Leaf { value: Vec<u8>, verbatim: bool, tagged: bool, plain: bool },
    Seq(Vec<Sh>),
    Map(Vec<(Sh, Sh)>),
}
fn shape(input: &[u8], evs: &[raw::E]) -> Option<Sh> {
    let targets = raw::alias_targets(evs).ok()?;
    struct P<'a> {
        input: &'a [u8],
        evs: &'a [raw::E],
        targets: std::collections::HashMap<usize, usize>,
        fuel: usize,
    }
    impl<'a> P<'a> {
        fn node(&mut self, i: &mut usize, depth: usize) -> Option<Sh> {
            if self.fuel == 0 || depth > 100 {
                return None;
            }
            self.fuel -= 1;
            let at = *i;
            let e = self.evs.get(at)?;
            *i += 1;
            match &e.ev {
                raw::Ev::Alias(_) => {
                    let mut j = *self.targets.get(&at)?;
                    self.node(&mut j, depth + 1)
                }
                raw::Ev::Scalar { tag, value, style, .. } => {
                    let off = match style {
                        raw::Style::Plain => Some(0),
                        raw::Style::Single | raw::Style::Double => Some(1),
                        _ => None,
                    };
                    let verbatim = off.map_or(false, |o| {
                        let end = e.end.index.checked_sub(o);
                        let start = end.and_then(|x| x.checked_sub(value.len()));
                        match (start, end) {
                            (Some(a), Some(b)) => a >= e.start.index && self.input.get(a..b) == Some(&value[..]),
                            _ => false,
                        }
                    });
                    Some(Sh::Leaf { value: value.clone(), verbatim, tagged: tag.is_some(), plain: *style == raw::Style::Plain })
                }
                raw::Ev::SeqStart { .. } => {
                    let mut v = vec![];
                    while !matches!(self.evs.get(*i)?.ev, raw::Ev::SeqEnd) {
                        v.push(self.node(i, depth + 1)?);
                    }
                    *i += 1;
                    Some(Sh::Seq(v))
                }
                raw::Ev::MapStart { .. } => {
                    let mut v = vec![];
                    while !matches!(self.evs.get(*i)?.ev, raw::Ev::MapEnd) {
                        let k = self.node(i, depth + 1)?;
                        let x = self.node(i, depth + 1)?;
                        v.push((k, x));
                    }
                    *i += 1;
                    Some(Sh::Map(v))
                }
                _ => None,
            }
        }
    }
    let mut p = P { input, evs, targets, fuel: 600 };
    let mut i = 0;
    let s = p.node(&mut i, 0)?;
    (i == evs.len()).then_some(s)
}

/// What a borrowing walk saw.
#[derive(Debug, Clone)]
enum Bt<'a> {
    B(&'a str),
    O(String),
    Other(M),
    Seq(Vec<Bt<'a>>),
    Map(Vec<(Bt<'a>, Bt<'a>)>),
    Enum(Box<Bt<'a>>, Box<Bt<'a>>),
}
impl<'a> Bt<'a> {
    fn owned(&self) -> M {
        match self {
            Bt::B(s) => M::s(s),
            Bt::O(s) => M::s(s),
            Bt::Other(m) => m.clone(),
            Bt::Seq(v) => M::Seq(v.iter().map(|x| x.owned()).collect()),
            Bt::Map(v) => M::Map(v.iter().map(|(k, x)| (k.owned(), x.owned())).collect()),
            Bt::Enum(t, x) => M::Tag(String::new(), Box::new(M::Seq(vec![t.owned(), x.owned()]))),
        }
    }
    fn borrows(&self, out: &mut Vec<&'a str>) {
        match self {
            Bt::B(s) => out.push(s),
            Bt::Seq(v) => v.iter().for_each(|x| x.borrows(out)),
            Bt::Map(v) => v.iter().for_each(|(k, x)| {
                k.borrows(out);
                x.borrows(out)
            }),
            Bt::Enum(t, x) => {
                t.borrows(out);
                x.borrows(out)
            }
            _ => {}
        }
    }
}
struct St<'de> {
    rng: Rng,
    /// every borrowed string with a copy made when it was handed out
    log: Vec<(&'de str, String)>,
    /// disagreements with the raw shape
    bad: Option<String>,
    strings: u64,
    /// only ask for `any`
    plain_any: bool,
}
impl<'de> St<'de> {
    fn new(seed: u64) -> RefCell<St<'de>> {
        RefCell::new(St { rng: Rng::new(seed), log: vec![], bad: None, strings: 0, plain_any: false })
    }
}
#[derive(Clone, Copy)]
struct G<'s, 'de> {
    sh: Option<&'s Sh>,
    st: &'s RefCell<St<'de>>,
    /// inside a request that may legitimately copy
    may_copy: bool,
}
impl<'s, 'de> G<'s, 'de> {
    fn to(self, sh: Option<&'s Sh>) -> Self {
        G { sh, may_copy: false, ..self }
    }
    fn seen(&self, text: &str, borrowed: bool) {
        let mut st = self.st.borrow_mut();
        st.strings += 1;
        if let Some(sh) = self.sh {
            let p = match sh {
                Sh::Leaf { value, .. } if value != text.as_bytes() => Some(format!("{text:?} handed out for the scalar {:?}", String::from_utf8_lossy(value))),
                Sh::Leaf { verbatim: true, .. } if !borrowed && !self.may_copy => Some(format!("{text:?} stands verbatim in the input but was not borrowed")),
                Sh::Leaf { verbatim: false, .. } if borrowed => Some(format!("{text:?} does not stand at its place in the input but was borrowed")),
                Sh::Leaf { .. } => None,
                _ => Some(format!("string {text:?} for a container")),
            };
            if st.bad.is_none() {
                st.bad = p;
            }
        }
    }
}
impl<'s, 'de> DeserializeSeed<'de> for G<'s, 'de> {
    type Value = Bt<'de>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Bt<'de>, D::Error> {
        let h = {
            let mut st = self.st.borrow_mut();
            if st.plain_any {
                0
            } else {
                st.rng.below(16)
            }
        };
        match (self.sh, h) {
            (_, 0..=5) | (None, _) => d.deserialize_any(self),
            (_, 6) => d.deserialize_option(self),
            (_, 7) => d.deserialize_newtype_struct("N", self),
            (Some(Sh::Leaf { .. }), 8 | 9) => d.deserialize_str(self),
            (Some(Sh::Leaf { .. }), 10) => d.deserialize_string(self),
            (Some(Sh::Leaf { .. }), 11) => d.deserialize_identifier(self),
            (Some(Sh::Leaf { tagged: false, plain: false, .. }), 12) => d.deserialize_enum("E", &["a", "b"], self),
            (Some(Sh::Leaf { .. }), _) => d.deserialize_str(self),
            (Some(Sh::Seq(_)), 8..=11) => d.deserialize_seq(self),
            (Some(Sh::Seq(v)), 12) => d.deserialize_tuple(v.len(), self),
            (Some(Sh::Seq(v)), 13) => d.deserialize_tuple_struct("T", v.len(), self),
            (Some(Sh::Map(_)), 8..=11) => d.deserialize_map(self),
            (Some(Sh::Map(_)), 12 | 13) => d.deserialize_struct("S", &["a", "b"], self),
            _ => d.deserialize_any(self),
        }
    }
}
impl<'s, 'de> Visitor<'de> for G<'s, 'de> {
    type Value = Bt<'de>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Bt<'de>, E> {
        self.seen(v, true);
        self.st.borrow_mut().log.push((v, String::from_utf8_lossy(v.as_bytes()).into_owned()));
        Ok(Bt::B(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Bt<'de>, E> {
        self.seen(v, false);
        Ok(Bt::O(v.to_string()))
    }
    fn visit_string<E>(self, v: String) -> Result<Bt<'de>, E> {
        self.seen(&v, false);
        Ok(Bt::O(v))
    }
    fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<Bt<'de>, E> {
        match std::str::from_utf8(v) {
            Ok(s) => self.st.borrow_mut().log.push((s, s.to_string())),
            Err(_) => self.st.borrow_mut().bad = Some("borrowed bytes that are no UTF-8".into()),
        }
        Ok(Bt::Other(M::s("bytes")))
    }
    fn visit_bool<E>(self, v: bool) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::Bool(v)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::Int(v as i128)))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::Int(v as i128)))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::Int(v)))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::S(v.to_string())))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::F(v)))
    }
    fn visit_unit<E>(self) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::Null))
    }
    fn visit_none<E>(self) -> Result<Bt<'de>, E> {
        Ok(Bt::Other(M::Null))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Bt<'de>, D::Error> {
        self.deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Bt<'de>, D::Error> {
        self.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Bt<'de>, A::Error> {
        let mut v = vec![];
        loop {
            let sh = match self.sh {
                Some(Sh::Seq(s)) => s.get(v.len()),
                _ => None,
            };
            match a.next_element_seed(self.to(sh))? {
                Some(x) => v.push(x),
                None => return Ok(Bt::Seq(v)),
            }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Bt<'de>, A::Error> {
        let mut v = vec![];
        loop {
            let (sk, sv) = match self.sh {
                Some(Sh::Map(s)) => (s.get(v.len()).map(|e| &e.0), s.get(v.len()).map(|e| &e.1)),
                _ => (None, None),
            };
            let Some(k) = a.next_key_seed(self.to(sk))? else { return Ok(Bt::Map(v)) };
            let x = a.next_value_seed(self.to(sv))?;
            v.push((k, x));
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Bt<'de>, A::Error> {
        match self.sh {
            Some(Sh::Leaf { tagged: false, .. }) => {
                // the content names the variant
                let (t, v) = a.variant_seed(G { may_copy: true, ..self })?;
                v.unit_variant()?;
                Ok(Bt::Enum(Box::new(t), Box::new(Bt::Other(M::Null))))
            }
            _ => {
                // the variant is the tag, the content follows
                let (t, v) = a.variant_seed(self.to(None))?;
                let x = v.newtype_variant_seed(self)?;
                Ok(Bt::Enum(Box::new(t), Box::new(x)))
            }
        }
    }
}

fn inside(input: &[u8], s: &str) -> bool {
    let (a, b) = (input.as_ptr() as usize, input.as_ptr() as usize + input.len());
    let (c, d) = (s.as_ptr() as usize, s.as_ptr() as usize + s.len());
    a <= c && d <= b
}
fn check_log(input: &[u8], log: &[(&str, String)], what: &str) -> R {
    for (s, copy) in log {
        ensure!(inside(input, s), "outside", "{what}: {copy:?} was borrowed from outside the input {:?}", String::from_utf8_lossy(input));
        ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "utf8", "{what}: borrowed text {:?} is no UTF-8", s.as_bytes());
        ensure!(*s == copy, "changed", "{what}: borrowed text was {copy:?} and is now {s:?}");
    }
    Ok(())
}
/// Walk every document of `input` three ways with the same requests.
fn walk_all(c: &mut Case, input: &str, seed: u64, plain_any: bool) -> R {
    let bytes = input.as_bytes();
    let docs = raw::docs(bytes);
    let shapes: Vec<Option<Sh>> = docs.docs.iter().map(|d| if d.cut { None } else { shape(bytes, &d.events) }).collect();
    let mut outs: Vec<Vec<Result<M, ()>>> = vec![];
    let mut borrowed = 0;
    for mode in 0..3 {
        let st = St::new(seed);
        st.borrow_mut().plain_any = plain_any;
        let de = match mode {
            0 => serde_yaml::Deserializer::from_str(input),
            1 => serde_yaml::Deserializer::from_slice(bytes),
            _ => serde_yaml::Deserializer::from_reader(bytes),
        };
        let mut out = vec![];
        let mut kept = vec![];
        for (i, d) in de.enumerate() {
            let g = G { sh: shapes.get(i).and_then(|s| s.as_ref()), st: &st, may_copy: false };
            let one = shapes.len() == 1 && docs.err.is_none();
            let r = g.deserialize(d);
            if let Err(e) = &r {
                let _ = format!("{e}");
            }
            let stop = r.is_err();
            out.push(r.as_ref().map(|b| b.owned()).map_err(|_| ()));
            kept.extend(r.ok());
            let _ = one;
            if stop || i > 20 {
                break;
            }
        }
        // the deserializer is gone; disturb the heap, then look again
        let junk: Vec<Vec<u8>> = (0..20).map(|i| vec![0xAA; i * 7]).collect();
        drop(junk);
        let st = st.into_inner();
        let what = ["from_str", "from_slice", "from_reader"][mode];
        if mode < 2 {
            check_log(bytes, &st.log, what)?;
            let mut bs = vec![];
            kept.iter().for_each(|b| b.borrows(&mut bs));
            for s in bs {
                ensure!(inside(bytes, s) && std::str::from_utf8(s.as_bytes()).is_ok(), "outside", "{what}: a result of {input:?} holds a borrow from outside it");
            }
            borrowed = st.log.len();
            if let Some(b) = st.bad {
                return fail("content", format!("{what}: {b}\nin {input:?}"));
            }
        } else {
            ensure!(st.log.is_empty(), "reader-borrow", "a reader's text was borrowed: {:?} in {input:?}", st.log);
        }
        c.evn("strings", st.strings);
        outs.push(out);
    }
    for k in 1..3 {
        let eq = outs[0].len() == outs[k].len()
            && outs[0].iter().zip(&outs[k]).all(|(a, b)| match (a, b) {
                (Ok(a), Ok(b)) => a.same(b),
                (Err(_), Err(_)) => true,
                _ => false,
            });
        ensure!(eq, "entry", "{} differs: {:?} instead of {:?} from {input:?}", ["", "from_slice", "from_reader"][k], outs[k], outs[0]);
    }
    c.evn("borrowed", borrowed as u64);
    c.evn("documents read", outs[0].iter().filter(|r| r.is_ok()).count() as u64);
    c.evn("documents refused", outs[0].iter().filter(|r| r.is_err()).count() as u64);
    if borrowed > 0 {
        c.nontrivial(input);
    }
    Ok(())
}

/// A document made of scalars in every style around few structures.
fn scalars_doc(r: &mut Rng) -> String {
    let bit = |r: &mut Rng| -> String {
        match r.below(9) {
            0 => "é".repeat(r.range(1, 4)),
            1 => "日本語".into(),
            2 => "😀".into(),
            3 => "a b".into(),
            4 => (*r.pick(&["null", "~", "true", "1", "0x1", "1.5", ".inf", "", "<<", "-1", "18446744073709551616"])).into(),
            5 => "x".repeat(gen_len(r, 300)),
            _ => (*r.pick(&["word", "two words", "a-b", "a#b", "k", "v", "under_score"])).into(),
        }
    };
    let scalar = |r: &mut Rng, flow: bool| -> String {
        let b = bit(r);
        let nl = if flow { " " } else { "  " };
        let s = match r.below(14) {
            0 => format!("'{b}'"),
            1 => format!("\"{b}\""),
            2 => format!("'it''s {b}'"),
            3 => format!("\"{b}\\n\""),
            4 => format!("\"\\x41{b}\""),
            5 => format!("'{b}\n{nl} {b}'"),
            6 => format!("\"{b}\n{nl} {b}\""),
            7 => format!("\"{b}\\\n{nl} {b}\""),
            8 if !flow => format!("|\n{nl} {b}\n{nl} {b}\n"),
            9 if !flow => format!(">-\n{nl} {b}\n{nl} {b}\n"),
            10 => format!("{}{b}\n{nl} {b}", "p"),
            11 => "\"\\u00e9\"".to_string(),
            12 => "''''".to_string(),
            _ => format!("p{b}"),
        };
        match r.below(8) {
            0 => format!("!t {s}"),
            1 => format!("!!str {s}"),
            2 => format!("&a {s}"),
            3 => format!("&a !<tag:yaml.org,2002:str> {s}"),
            _ => s,
        }
    };
    let n = r.range(1, 7);
    let mut out = String::new();
    if r.chance(1, 6) {
        out.push('\u{feff}');
    }
    let form = r.below(4);
    if r.chance(1, 4) {
        out.push_str(*r.pick(&["---\n", "# c é\n", "%YAML 1.2\n---\n", "\n\n"]));
    }
    let mut anchored = false;
    let mut item = |r: &mut Rng, flow: bool| -> String {
        if anchored && r.chance(1, 3) {
            return "*a ".into();
        }
        let s = scalar(r, flow);
        anchored |= s.starts_with('&');
        s
    };
    match form {
        0 => {
            for _ in 0..n {
                let s = item(r, false);
                out.push_str(&format!("- {s}\n"));
            }
        }
        1 => {
            for i in 0..n {
                let k = if r.bool() { format!("k{i}") } else { format!("\"é{i}\"") };
                let s = item(r, false);
                out.push_str(&format!("{k}: {s}\n"));
            }
        }
        2 => {
            let v: Vec<String> = (0..n).map(|_| item(r, true)).collect();
            out.push_str(&format!("[ {} ]\n", v.join(" , ")));
        }
        _ => {
            let s = item(r, false);
            out.push_str(&s);
            if r.bool() {
                out.push('\n');
            }
        }
    }
    if r.chance(1, 8) {
        out = out.replace('\n', "\r\n");
    }
    out
}
fn walk(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let t = match r.below(3) {
        0 => texts::valid_doc(&mut r),
        1 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 3) {
                let d = if r.bool() { scalars_doc(&mut r) } else { texts::valid_doc(&mut r) };
                s.push_str("---\n");
                s.push_str(d.trim_start_matches('\u{feff}'));
                s.push('\n');
            }
            s
        }
        _ => scalars_doc(&mut r),
    };
    let any = r.chance(1, 5);
    c.sample(|| t.clone());
    walk_all(c, &t, r.next(), any)
}
fn any_text(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let t = texts::text(&mut r);
    let any = r.bool();
    walk_all(c, &t, r.next(), any)
}

/// `&str` at every scalar: refused exactly where the text is not verbatim.
#[derive(Clone, Copy)]
struct Strict<'s, 'de> {
    sh: &'s Sh,
    log: &'s RefCell<Vec<(&'de str, Vec<u8>)>>,
}
impl<'s, 'de> DeserializeSeed<'de> for Strict<'s, 'de> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.sh {
            Sh::Leaf { value, .. } => {
                let s = <&'de str>::deserialize(d)?;
                self.log.borrow_mut().push((s, value.clone()));
                Ok(())
            }
            Sh::Seq(_) => d.deserialize_seq(self),
            Sh::Map(_) => d.deserialize_map(self),
        }
    }
}
impl<'s, 'de> Visitor<'de> for Strict<'s, 'de> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a container")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if let Sh::Seq(v) = self.sh {
            for sh in v {
                a.next_element_seed(Strict { sh, ..self })?;
            }
        }
        while a.next_element::<IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if let Sh::Map(v) = self.sh {
            for (k, x) in v {
                a.next_key_seed(Strict { sh: k, ..self })?;
                a.next_value_seed(Strict { sh: x, ..self })?;
            }
        }
        Ok(())
    }
}
fn first_copy(sh: &Sh) -> Option<&[u8]> {
    match sh {
        Sh::Leaf { verbatim: true, .. } => None,
        Sh::Leaf { value, .. } => Some(value),
        Sh::Seq(v) => v.iter().find_map(first_copy),
        Sh::Map(v) => v.iter().find_map(|(k, x)| first_copy(k).or_else(|| first_copy(x))),
    }
}
fn leaves(sh: &Sh) -> usize {
    match sh {
        Sh::Leaf { .. } => 1,
        Sh::Seq(v) => v.iter().map(leaves).sum(),
        Sh::Map(v) => v.iter().map(|(k, x)| leaves(k) + leaves(x)).sum(),
    }
}
fn strict(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let t = if r.chance(1, 3) { texts::valid_doc(&mut r) } else { scalars_doc(&mut r) };
    let docs = raw::docs(t.as_bytes());
    if docs.err.is_some() || docs.docs.len() != 1 {
        c.ev("not one document");
        return Ok(());
    }
    let Some(sh) = shape(t.as_bytes(), &docs.docs[0].events) else {
        c.ev("no shape");
        return Ok(());
    };
    for mode in 0..3 {
        let log = RefCell::new(vec![]);
        let de = match mode {
            0 => serde_yaml::Deserializer::from_str(&t),
            1 => serde_yaml::Deserializer::from_slice(t.as_bytes()),
            _ => serde_yaml::Deserializer::from_reader(t.as_bytes()),
        };
        let res = Strict { sh: &sh, log: &log }.deserialize(de);
        let log = log.into_inner();
        for (s, want) in &log {
            ensure!(inside(t.as_bytes(), s), "outside", "&str outside the input {t:?}");
            ensure!(s.as_bytes() == &want[..], "text", "&str {s:?} for the scalar {:?} of {t:?}", String::from_utf8_lossy(want));
        }
        if mode == 2 {
            ensure!(log.is_empty() && (res.is_err() || leaves(&sh) == 0), "reader-borrow", "a &str from a reader: {log:?}");
            continue;
        }
        match (first_copy(&sh), res) {
            (None, Ok(())) => {
                ensure!(log.len() == leaves(&sh), "count", "{} strings for {} scalars of {t:?}", log.len(), leaves(&sh));
                c.ev("all borrowed");
            }
            (None, Err(e)) => return fail("refused", format!("every scalar stands verbatim, but {e}\nin {t:?}")),
            (Some(v), Ok(())) => return fail("accepted", format!("{:?} does not stand verbatim but was borrowed from {t:?}", String::from_utf8_lossy(v))),
            (Some(v), Err(e)) => {
                let s = e.to_string();
                ensure!(s.contains("borrowed string"), "error", "the refusal of {:?} says {s} in {t:?}", String::from_utf8_lossy(v));
                c.ev("copy refused");
            }
        }
    }
    if leaves(&sh) > 0 {
        c.nontrivial(&t);
    }
    Ok(())
}

#[derive(Deserialize, Debug)]
struct Rec<'a> {
    #[serde(borrow)]
    a: Option<&'a str>,
    #[serde(borrow)]
    b: std::borrow::Cow<'a, str>,
    #[serde(borrow)]
    c: Vec<Cw<'a>>,
    #[serde(borrow)]
    e: En<'a>,
}
#[derive(Deserialize, Debug)]
struct Cw<'a>(#[serde(borrow)] std::borrow::Cow<'a, str>);
#[derive(Deserialize, Debug)]
enum En<'a> {
    N(&'a str),
    T(&'a str, &'a str),
    S {
        x: &'a str,
        #[serde(borrow)]
        y: Option<Cw<'a>>,
    },
}
#[derive(Deserialize, Debug)]
struct RecO {
    a: Option<String>,
    b: String,
    c: Vec<String>,
    e: EnO,
}
#[derive(Deserialize, Debug)]
enum EnO {
    N(String),
    T(String, String),
    S { x: String, y: Option<String> },
}
/// Derived types with lifetimes against their owned twins.
fn typed(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let sc = |r: &mut Rng, safe: bool| -> String {
        let b = (*r.pick(&["word", "é", "日本 x", "two words", "", "null", "1", "a'b"])).to_string();
        match r.below(if safe { 3 } else { 7 }) {
            0 => format!("'{}'", b.replace('\'', "")),
            1 => format!("\"{b}\""),
            2 => format!("w{}", b.trim_end()),
            3 => format!("\"{b}\\t\""),
            4 => format!("\"{b} \\u263a\""),
            5 => format!("'{}''s'", b.replace('\'', "")),
            _ => format!("\"{b}\n    {b}\""),
        }
    };
    let risky = r.chance(1, 4);
    let a = if r.chance(1, 4) { "~".into() } else { sc(&mut r, !risky) };
    let b = sc(&mut r, false);
    let cs: Vec<String> = (0..r.below(4)).map(|_| sc(&mut r, false)).collect();
    let e = match r.below(3) {
        0 => format!("!N {}", sc(&mut r, !risky)),
        1 => format!("!T [{}, {}]", sc(&mut r, !risky), sc(&mut r, !risky)),
        _ => format!("!S {{x: {}, y: {}}}", sc(&mut r, !risky), sc(&mut r, false)),
    };
    let an = if r.bool() { "&x " } else { "" };
    let tail = if an.is_empty() { "" } else { ", *x " };
    let c_list = if cs.is_empty() { "[]".to_string() } else { format!("[{}{tail}]", cs.join(", ")) };
    let t = format!("a: {a}\nb: {an}{b}\nc: {c_list}\ne: {e}\n");
    let owned: Result<RecO, _> = serde_yaml::from_str(&t);
    let got: Result<Rec, _> = serde_yaml::from_str(&t);
    let via: Result<Rec, _> = serde_yaml::from_slice(t.as_bytes());
    ensure!(got.is_ok() == via.is_ok(), "typed-entry", "{got:?} / {via:?} from {t:?}");
    let o = match owned {
        Ok(o) => o,
        Err(e) => return fail("typed-owned", format!("{e} in {t:?}")),
    };
    match got {
        Ok(g) => {
            let mut bs: Vec<(&str, &str)> = vec![(&g.b, &o.b)];
            let mut must: Vec<&str> = vec![];
            ensure!(g.a.is_some() == o.a.is_some() && g.c.len() == o.c.len(), "typed", "{g:?} / {o:?} from {t:?}");
            if let (Some(x), Some(y)) = (g.a, &o.a) {
                bs.push((x, y));
                must.push(x);
            }
            g.c.iter().zip(&o.c).for_each(|(x, y)| bs.push((&x.0, y)));
            match (&g.e, &o.e) {
                (En::N(x), EnO::N(y)) => {
                    bs.push((x, y));
                    must.push(x);
                }
                (En::T(x, z), EnO::T(y, w)) => {
                    bs.extend([(*x, y.as_str()), (*z, w.as_str())]);
                    must.extend([*x, *z]);
                }
                (En::S { x, y }, EnO::S { x: x2, y: y2 }) => {
                    bs.push((x, x2));
                    must.push(x);
                    ensure!(y.is_some() == y2.is_some(), "typed", "{g:?} / {o:?} from {t:?}");
                    if let (Some(y), Some(y2)) = (y, y2) {
                        bs.push((&y.0, y2));
                    }
                }
                _ => return fail("typed", format!("{g:?} / {o:?} from {t:?}")),
            }
            for (x, y) in bs {
                ensure!(x == y, "typed", "borrowed {x:?}, owned {y:?} from {t:?}");
            }
            for x in must {
                ensure!(inside(t.as_bytes(), x), "outside", "{x:?} lies outside {t:?}");
                c.ev("borrowed fields");
            }
            if let std::borrow::Cow::Borrowed(x) = &g.b {
                ensure!(inside(t.as_bytes(), x), "outside", "{x:?} lies outside {t:?}");
            }
            c.nontrivial(&t);
        }
        Err(e) => {
            ensure!(risky && e.to_string().contains("borrowed string"), "typed-refused", "{e} in {t:?}");
            c.ev("refused");
        }
    }
    Ok(())
}

/// Text borrowed from a value lies in that value.
fn values(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let m = gen_m(&mut r, &GenCfg::default());
    let v = to_val(&m);
    fn strings(v: &Value, out: &mut Vec<(usize, usize)>) {
        match v {
            Value::String(s) => out.push((s.as_ptr() as usize, s.len())),
            Value::Sequence(v) => v.iter().for_each(|x| strings(x, out)),
            Value::Mapping(m) => m.iter().for_each(|(k, x)| {
                strings(k, out);
                strings(x, out)
            }),
            Value::Tagged(t) => strings(&t.value, out),
            _ => {}
        }
    }
    let mut own = vec![];
    strings(&v, &mut own);
    own.sort();
    let st = St::new(r.next());
    st.borrow_mut().plain_any = true;
    let a = G { sh: None, st: &st, may_copy: true }.deserialize(&v);
    let log = st.into_inner().log;
    for (s, copy) in &log {
        // a tag's text may be handed out too
        let in_strings = own.binary_search(&(s.as_ptr() as usize, s.len())).is_ok();
        ensure!(s == copy, "changed", "text of a value changed from {copy:?} to {s:?}");
        if !in_strings {
            ensure!(m.has_tag() && !s.is_empty(), "value-borrow", "{s:?} was borrowed from outside the value {v:?}");
        }
        c.ev("borrowed from values");
    }
    let st2 = St::new(1);
    st2.borrow_mut().plain_any = true;
    let b = G { sh: None, st: &st2, may_copy: true }.deserialize(v.clone());
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return fail("value-read", format!("{:?} / {:?}", a.map(|x| x.owned()), b.map(|x| x.owned()))),
    };
    ensure!(a.owned().same(&b.owned()), "value-ref", "read by reference {:?}, by value {:?}", a.owned(), b.owned());
    if let M::Seq(x) = &m {
        if x.iter().all(|x| matches!(x, M::S(_))) {
            let z: Result<Vec<&str>, _> = Vec::deserialize(&v);
            ensure!(z.map_or(false, |z| z.iter().zip(x).all(|(a, b)| matches!(b, M::S(b) if a == b))), "value-strs", "{v:?}");
        }
    }
    each_string(c, &v)?;
    if !log.is_empty() {
        c.nontrivial(&m.canon());
    }
    Ok(())
}

/// However a string of a borrowed value is asked for, it is lent, not copied.
fn each_string(c: &mut Case, v: &Value) -> R {
    struct Lent;
    impl<'de> Visitor<'de> for Lent {
        type Value = Option<(usize, usize)>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("text")
        }
        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E> {
            Ok(Some((v.as_ptr() as usize, v.len())))
        }
        fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<Self::Value, E> {
            Ok(Some((v.as_ptr() as usize, v.len())))
        }
        fn visit_str<E>(self, _: &str) -> Result<Self::Value, E> {
            Ok(None)
        }
        fn visit_bytes<E>(self, _: &[u8]) -> Result<Self::Value, E> {
            Ok(None)
        }
        fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
            d.deserialize_str(self)
        }
        fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
            d.deserialize_bytes(self)
        }
    }
    match v {
        Value::String(s) => {
            let want = Some((s.as_ptr() as usize, s.len()));
            for (how, got) in [
                ("any", v.deserialize_any(Lent)),
                ("str", v.deserialize_str(Lent)),
                ("string", v.deserialize_string(Lent)),
                ("char", v.deserialize_char(Lent)),
                ("bytes", v.deserialize_bytes(Lent)),
                ("byte_buf", v.deserialize_byte_buf(Lent)),
                ("identifier", v.deserialize_identifier(Lent)),
                ("option", v.deserialize_option(Lent)),
                ("newtype", v.deserialize_newtype_struct("N", Lent)),
                ("&str", <&str>::deserialize(v).map(|s| Some((s.as_ptr() as usize, s.len())))),
                ("&[u8]", <&[u8]>::deserialize(v).map(|s| Some((s.as_ptr() as usize, s.len())))),
                ("&&str", <Option<&str>>::deserialize(v).map(|s| s.map(|s| (s.as_ptr() as usize, s.len())))),
            ] {
                match got {
                    Ok(g) => ensure!(g == want, "value-lent", "{how} of the string {s:?} in a borrowed value: {g:?}, it is at {want:?}"),
                    Err(e) => return fail("value-lent", format!("{how} of the string {s:?} in a borrowed value: {e}")),
                }
            }
            c.ev("strings of values asked for in every way");
            Ok(())
        }
        Value::Sequence(x) => x.iter().try_for_each(|x| each_string(c, x)),
        Value::Mapping(x) => x.iter().try_for_each(|(k, x)| {
            each_string(c, k)?;
            each_string(c, x)
        }),
        Value::Tagged(t) => {
            if let Value::String(s) = &t.value {
                for (how, got) in [("str", v.deserialize_str(Lent)), ("string", v.deserialize_string(Lent)), ("bytes", v.deserialize_bytes(Lent)), ("byte_buf", v.deserialize_byte_buf(Lent))] {
                    match got {
                        Ok(g) => ensure!(g == Some((s.as_ptr() as usize, s.len())), "value-lent", "{how} of the tagged string {s:?} in a borrowed value: {g:?}"),
                        Err(e) => return fail("value-lent", format!("{how} of the tagged string {s:?} in a borrowed value: {e}")),
                    }
                }
            }
            each_string(c, &t.value)
        }
        _ => Ok(()),
    }
}
