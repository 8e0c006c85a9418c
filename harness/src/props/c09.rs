//! C09: multi-document streams keep every document, in order and separate.
use crate::any::AnyM;
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::raw::{self, Out};
use crate::render::*;
use crate::texts;
use serde::de::IgnoredAny;
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "streams of 0 to 8 documents rendered from known values (directives, markers, comments, empty documents, repeated anchors), read in order, in reverse, partly or with other types; streams with a malformed document or an undefined alias at a chosen place; arbitrary mutated streams against documents cut from the raw events; histories of one serializer object over values and typed values; non-trivial = distinct streams",
        assumptions: &[
            "characters that YAML forbids are found by the scanner's look-ahead, possibly while an earlier document is being read; they are not among the malformed documents",
            "after a malformed document the iterator may keep reporting that error; it must not produce values",
        ],
        subs: vec![random("streams", 5, streams), random("malformed", 4, malformed), random("any_stream", 4, any_stream), random("serializer", 4, serializer), random("empties", 1, empties)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

struct Piece {
    text: String,
    m: M,
}
fn piece(r: &mut Rng) -> Piece {
    if r.chance(1, 4) {
        let (t, m) = match r.below(9) {
            0 => ("---\n", M::Null),
            1 => ("--- # nothing\n", M::Null),
            2 => ("--- ~\n", M::Null),
            3 => ("--- |\n text\n", M::s("text\n")),
            4 => ("--- x\n", M::s("x")),
            5 => ("---\n# only a comment\n", M::Null),
            6 => ("--- 'quoted'\n", M::s("quoted")),
            7 => ("--- &a []\n", M::Seq(vec![])),
            _ => ("---\n- &a 1\n- *a\n", M::Seq(vec![M::Int(1), M::Int(1)])),
        };
        return Piece { text: t.into(), m };
    }
    let o = texts::opts(r);
    let (depth, fuel) = (r.range(0, 3), r.range(1, 15));
    let d = gen_doc(r, depth, fuel, o);
    let mut text = d.text.trim_start_matches('\u{feff}').to_string();
    if !(text.starts_with("---") || text.starts_with('%') || text.contains("\n---") || text.contains("\r---")) {
        text.insert_str(0, "---\n");
    }
    if !text.ends_with(['\n', '\r']) {
        text.push('\n');
    }
    Piece { text, m: d.m }
}
fn join(r: &mut Rng, ps: &[Piece]) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut at = Vec::new();
    for (i, p) in ps.iter().enumerate() {
        if i > 0 && (p.text.contains('%') || r.chance(1, 4)) && !ended(&s) {
            s.push_str(*r.pick(&["...\n", "... # end\n", "...\r\n"]));
        }
        if i > 0 && r.chance(1, 6) && ended(&s) {
            s.push_str("# between\n\n");
        }
        at.push(s.len());
        s.push_str(&p.text);
    }
    if !ps.is_empty() && r.chance(1, 4) && !ended(&s) {
        s.push_str("...\n");
    }
    (s, at)
}
fn ended(s: &str) -> bool {
    ["...\n", "... # end\n", "...\r\n", "...\r", "# between\n\n"].iter().any(|e| s.ends_with(e))
}

/// Hands out a few bytes at a time.
struct Chunks<'a>(&'a [u8], usize);
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn de<'a>(r: &mut Rng, s: &'a str) -> serde_yaml::Deserializer<'a> {
    match r.below(4) {
        0 => serde_yaml::Deserializer::from_slice(s.as_bytes()),
        1 => serde_yaml::Deserializer::from_reader(Chunks(s.as_bytes(), r.range(1, 40))),
        _ => serde_yaml::Deserializer::from_str(s),
    }
}
fn same_value(what: &str, i: usize, r: Result<M, serde_yaml::Error>, want: &M, text: &str) -> R {
    match r {
        Ok(m) => ensure!(m.same(want), &format!("document {what}"), "{what}: document {i} has another value: {}\nstream {text:?}", diff(want, &m)),
        Err(e) => return fail(&format!("document-lost {what}"), format!("{what}: document {i} cannot be read: {e}\nstream {text:?}")),
    }
    Ok(())
}

fn streams(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5, 8]);
    let ps: Vec<Piece> = (0..n).map(|_| piece(r)).collect();
    let (text, _) = join(r, &ps);
    c.nontrivial(&text);
    c.sample(|| text.clone());
    // an empty stream is one empty document
    let want: Vec<M> = if n == 0 { vec![M::Null] } else { ps.iter().map(|p| p.m.clone()).collect() };
    // in order, as values
    let mut got = 0;
    for (i, d) in de(r, &text).enumerate() {
        ensure!(i < want.len(), "extra-document", "document {i} of {} made up: {:?}\nstream {text:?}", want.len(), Value::deserialize(d));
        same_value("in order", i, Value::deserialize(d).map(|v| from_val(&v)), &want[i], &text)?;
        got += 1;
    }
    ensure!(got == want.len(), "missing-document", "{got} documents instead of {}\nstream {text:?}", want.len());
    c.evn("documents in order", got as u64);
    // alone
    for (i, p) in ps.iter().enumerate() {
        same_value("alone", i, serde_yaml::from_str::<Value>(&p.text).map(|v| from_val(&v)), &p.m, &p.text)?;
    }
    // collected first, read in another order, each in its own way
    let mut all: Vec<(usize, _)> = de(r, &text).enumerate().collect();
    ensure!(all.len() == want.len(), "missing-document", "{} documents collected instead of {}\nstream {text:?}", all.len(), want.len());
    while !all.is_empty() {
        let k = r.below(all.len());
        let (i, d) = all.swap_remove(k);
        match r.below(6) {
            0 => drop(d),
            1 => {
                let x = IgnoredAny::deserialize(d);
                ensure!(x.is_ok(), "document-ignored", "document {i} cannot be skipped: {}\nstream {text:?}", x.unwrap_err());
            }
            2 => {
                // a type it does not have
                let bad = if want[i].is_container() { bool::deserialize(d).map(|_| ()) } else { <(IgnoredAny, IgnoredAny)>::deserialize(d).map(|_| ()) };
                if !matches!(want[i], M::Tag(..)) {
                    ensure!(bad.is_err(), "document-mistyped", "document {i} read as a wrong type\nstream {text:?}");
                }
                c.ev("documents failing by themselves");
            }
            3 => same_value("self-describing", i, AnyM::deserialize(d).map(|a| a.0), &want[i], &text)?,
            // a document is not a stream any more, nor more than itself
            4 => {
                let mut d = d;
                ensure!(d.next().is_none(), "document-as-stream", "document {i} iterates again\nstream {text:?}");
                same_value("iterated", i, Value::deserialize(d).map(|v| from_val(&v)), &want[i], &text)?;
            }
            _ => same_value("out of order", i, Value::deserialize(d).map(|v| from_val(&v)), &want[i], &text)?,
        }
    }
    c.ev("streams read out of order");
    // as one value
    for (w, x) in [
        ("string", serde_yaml::from_str::<Value>(&text)),
        ("slice", serde_yaml::from_slice::<Value>(text.as_bytes())),
        ("reader", serde_yaml::from_reader::<_, Value>(Chunks(text.as_bytes(), 7))),
        ("started stream", {
            let mut d = serde_yaml::Deserializer::from_str(&text);
            d.next();
            if n <= 1 {
                serde_yaml::from_str::<Value>(&text)
            } else {
                Value::deserialize(d)
            }
        }),
    ] {
        if n > 1 {
            match x {
                Ok(v) => return fail("several-as-one", format!("{w}: {n} documents read as the one value {v:?}\nstream {text:?}")),
                Err(e) => ensure!(e.to_string().contains("more than one document"), "several-as-one-error", "{w}: {e}\nstream {text:?}"),
            }
            c.ev("streams refused as one value");
        } else {
            same_value("single", 0, x.map(|v| from_val(&v)), &want[0], &text)?;
        }
    }
    if n > 1 {
        ensure!(serde_yaml::from_str::<IgnoredAny>(&text).is_err(), "several-as-one", "{n} documents skipped as one\nstream {text:?}");
    }
    c.rng = r.clone();
    Ok(())
}

const BAD: &[&str] = &[
    "--- [1, 2\n", "--- {a: 1]\n", "---\na: b: c\n", "--- \"unterminated\n", "--- 'unterminated\n", "---\n- a\nb: c\n", "---\na: 1\n - b\n", "--- @foo\n", "--- `foo`\n", "--- %x\n", "--- &a &b x\n", "--- !a !b x\n", "---\na:\n\t- b\n", "--- \"\\q\"\n",
    "--- [a, b]]\n", "--- {a: 1}}\n", "---\na: 1\nb\n", "--- !<unterminated\n", "--- |x\n text\n", "--- [a b: c: d]\n", "--- !nohandle!x y\n", "---\nk: [1, 2\nl: 3\n", "--- ? [a\n", "--- &\n", "--- * \n", "---\n? a\n? - b\n  c\n",
];

fn malformed(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let before: Vec<Piece> = (0..r.below(4)).map(|_| piece(r)).collect();
    let alias = r.chance(1, 4);
    let bad = if alias {
        (*r.pick(&["--- *a\n", "--- [*undefined, 2]\n", "---\n- 1\n- {x: *n0}\n- 3\n", "---\n? *b\n: 1\n", "--- &a [*b]\n", "---\n- *c\n- &c 1\n", "--- {x: [*q, [1, 2]], y: 3}\n"])).to_string()
    } else {
        (*r.pick(BAD)).to_string()
    };
    let after: Vec<Piece> = (0..r.below(4)).map(|_| piece(r)).collect();
    let k = before.len();
    let mut ps = before;
    ps.push(Piece { text: bad.clone(), m: M::Null });
    ps.extend(after);
    // unbalanced input may swallow the markers between documents
    let (text, at) = join(r, &ps);
    c.nontrivial(&text);
    c.sample(|| text.clone());
    let raw = raw::docs(text.as_bytes());
    if !alias && raw.docs.iter().filter(|d| !d.cut).count() != k {
        // the text before the error is a document of its own
        c.rng = r.clone();
        return Ok(());
    }
    let input = format!("malformed {bad:?} as document {k}\nstream {text:?}");
    let mut it = de(r, &text);
    for i in 0..k {
        match it.next() {
            Some(d) => same_value("before a malformed one", i, Value::deserialize(d).map(|v| from_val(&v)), &ps[i].m, &text)?,
            None => return fail("missing-document", format!("document {i} missing before the malformed one\n{input}")),
        }
    }
    let Some(d) = it.next() else { return fail("missing-error", format!("the stream ends before the malformed document\n{input}")) };
    match Value::deserialize(d) {
        Ok(v) => return fail("malformed-value", format!("the malformed document reads as {v:?}\n{input}")),
        Err(e) => {
            let Some(l) = e.location() else { return fail("malformed-location", format!("no location: {e}\n{input}")) };
            if alias {
                ensure!(e.to_string().contains("unknown anchor"), "malformed-message", "{e}\n{input}");
                ensure!(l.index() > at[k] && l.index() < at[k] + bad.len(), "malformed-location", "error at {} outside the document at {}..{}\n{input}", l.index(), at[k], at[k] + bad.len());
            } else {
                let m = raw.err.as_ref().map(|e| e.mark).unwrap();
                ensure!((l.line(), l.column(), l.index()) == (m.line + 1, m.column + 1, m.index), "malformed-location", "error reported at {:?}, found at {m:?}\n{input}", (l.line(), l.column(), l.index()));
                ensure!(l.index() >= at[k], "malformed-location", "error at {} before the document at {}\n{input}", l.index(), at[k]);
            }
        }
    }
    c.ev("malformed documents reported");
    let mut rest = 0;
    for _ in 0..ps.len() + 3 {
        let Some(d) = it.next() else { break };
        let i = k + 1 + rest;
        rest += 1;
        let v = Value::deserialize(d);
        if alias {
            ensure!(i < ps.len(), "extra-document", "document {i} made up: {v:?}\n{input}");
            same_value("after an undefined alias", i, v.map(|v| from_val(&v)), &ps[i].m, &text)?;
            c.ev("documents after an undefined alias");
        } else {
            ensure!(v.is_err(), "made-up-value", "after the malformed document the value {:?} is made up\n{input}", v.unwrap());
        }
    }
    if alias {
        ensure!(k + 1 + rest == ps.len(), "missing-document", "{} documents instead of {}\n{input}", k + 1 + rest, ps.len());
    }
    for x in [serde_yaml::from_str::<Value>(&text), serde_yaml::from_slice::<Value>(text.as_bytes())] {
        ensure!(x.is_err(), "malformed-as-one", "the stream reads as {:?}\n{input}", x.unwrap());
    }
    c.rng = r.clone();
    Ok(())
}

/// Any text at all: the documents are those of the raw event stream.
fn any_stream(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let mut text = String::new();
    for _ in 0..r.range(1, 4) {
        text.push_str(*r.pick(&["---\n", "--- ", "...\n---\n", "", "...\n", "...\n%YAML 1.2\n---\n", "# c\n", "---", "\n"]));
        let t = texts::text(r);
        text.push_str(&t);
    }
    let docs = raw::docs(text.as_bytes());
    if docs.err.as_ref().map_or(false, |e| e.reader) {
        c.rng = r.clone();
        return Ok(());
    }
    c.nontrivial(&text);
    let whole = docs.docs.iter().filter(|d| !d.cut).count();
    let mut it = de(r, &text);
    for (i, d) in docs.docs.iter().filter(|d| !d.cut).enumerate() {
        let Some(x) = it.next() else { return fail("missing-document", format!("document {i} of {whole} missing\nstream {text:?}")) };
        let v = Value::deserialize(x);
        match raw::compose(&d.events) {
            Out::Val(m) => {
                same_value("of the events", i, v.map(|v| from_val(&v)), &m, &text)?;
                c.ev("documents with the composed value");
            }
            Out::Err(w) => {
                ensure!(v.is_err(), "document-accepted", "document {i} ({w}) reads as {:?}\nstream {text:?}", v.unwrap());
                c.ev("documents with an error of their own");
            }
            Out::Unspec(_) => c.ev("documents with unspecified content"),
        }
    }
    if docs.err.is_some() {
        for j in 0..3 {
            match it.next() {
                Some(x) => {
                    let v = Value::deserialize(x);
                    ensure!(v.is_err(), "made-up-value", "after {whole} documents the stream is malformed, but item {j} reads as {:?}\nstream {text:?}", v.unwrap());
                }
                None => {
                    ensure!(j > 0, "missing-error", "the stream is malformed after {whole} documents, but just ends\nstream {text:?}");
                    break;
                }
            }
        }
        c.ev("streams ending in a syntax error");
    } else {
        if whole == 0 {
            let Some(x) = it.next() else { return fail("missing-document", format!("no document for an empty stream {text:?}")) };
            same_value("empty", 0, Value::deserialize(x).map(|v| from_val(&v)), &M::Null, &text)?;
        }
        ensure!(it.next().is_none() && it.next().is_none(), "extra-document", "more than {whole} documents\nstream {text:?}");
        c.ev("streams read to the end");
    }
    c.rng = r.clone();
    Ok(())
}

#[derive(Clone)]
struct Shared(Rc<RefCell<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn serializer(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = *r.pick(&[1, 2, 2, 3, 3, 4, 6, 12]);
    let cfg = TyCfg { any: false, ..TyCfg::default() };
    let mut items: Vec<(Option<(Ty, TV)>, M)> = Vec::new();
    let text = Shared(Rc::new(RefCell::new(Vec::new())));
    let mut ser = serde_yaml::Serializer::new(text.clone());
    let mut before: Vec<u8> = Vec::new();
    for i in 0..n {
        let item = match r.below(6) {
            0 => {
                let ty = gen_ty(r, &cfg, 2);
                let tv = gen_tv(r, &ty, &cfg, &mut 10);
                let m = Expect::new(false, false).model(&ty, &tv);
                if m.has_nested_tag() || contains(&ty, &|t| matches!(t, Ty::F32)) {
                    (None, M::Null)
                } else {
                    (Some((ty, tv)), m)
                }
            }
            1 => (None, M::S(gen_string(r))),
            2 => (None, M::S((*r.pick(&["...", "---", "--- a", "... b", "\n", "\n\n", "x\n\n\n", "a\n...\nb", "a\n---\nb\n", "%YAML 1.1", "# c", " \n", "", "null", "line\n  indented\n\n"])).to_string())),
            3 => (None, r.pick(&[M::Null, M::Seq(vec![]), M::Map(vec![]), M::Bool(true), M::Int(0), M::F(f64::NAN), M::Tag("t".into(), Box::new(M::Null)), M::Tag("t".into(), Box::new(M::s("x\n\n"))), M::Seq(vec![M::s("trailing\n\n")]), M::Map(vec![(M::s("k"), M::s("\n"))])]).clone()),
            _ => (None, gen_m(r, &GenCfg { max_depth: 3, ..GenCfg::default() })),
        };
        let res = match &item.0 {
            Some((ty, tv)) => dynv(ty, tv, r.below(32) as u8 & !SKIPNONE).serialize(&mut ser),
            None => to_val(&item.1).serialize(&mut ser),
        };
        if let Err(e) = res {
            return fail("serialize", format!("value {i} {:?} refused: {e}", item.1));
        }
        items.push(item);
        let now = text.0.borrow().clone();
        ensure!(now.starts_with(&before), "rewritten", "output of earlier values changed: {:?} then {:?}", String::from_utf8_lossy(&before), String::from_utf8_lossy(&now));
        before = now;
        // at any moment the stream holds the values so far
        if r.chance(1, 3) {
            let _ = ser.flush();
            back(&items, &text, "flushed")?;
            c.ev("streams read back while being written");
        }
    }
    if r.bool() {
        if let Err(e) = ser.into_inner() {
            return fail("into_inner", format!("{e}"));
        }
    } else {
        drop(ser);
    }
    c.nontrivial(&*text.0.borrow());
    c.sample(|| String::from_utf8_lossy(&text.0.borrow()).into_owned());
    back(&items, &text, "complete")?;
    c.evn("documents serialized and read back", items.len() as u64);
    c.rng = r.clone();
    Ok(())
}
fn back(items: &[(Option<(Ty, TV)>, M)], text: &Shared, when: &str) -> R {
    let bytes = text.0.borrow();
    let s = match std::str::from_utf8(&bytes) {
        Ok(s) => s,
        Err(e) => return fail("not-utf8", format!("{e}")),
    };
    let mut k = 0;
    for (i, d) in serde_yaml::Deserializer::from_str(s).enumerate() {
        ensure!(i < items.len(), "serialized-extra", "{when}: more than {} documents in {s:?}", items.len());
        match &items[i].0 {
            Some((ty, tv)) => match as_type(ty, || Root::deserialize(d)) {
                Ok(Root(b)) => ensure!(b.same(tv), "serialized-changed", "{when}: document {i} reads {b:?} instead of {tv:?} in {s:?}"),
                Err(e) => return fail("serialized-unreadable", format!("{when}: document {i} ({tv:?}) unreadable: {e} in {s:?}")),
            },
            None => same_value(&format!("serialized {when}"), i, Value::deserialize(d).map(|v| from_val(&v)), &items[i].1, s)?,
        }
        k += 1;
    }
    ensure!(k == items.len(), "serialized-missing", "{when}: {k} documents instead of {} in {s:?}", items.len());
    Ok(())
}

/// Documents without content: read as any type, the ways of having none agree.
fn empties(c: &mut Case) -> R {
    fn text_like(t: &Ty) -> bool {
        match t {
            Ty::New(_, t) => text_like(t),
            Ty::Str | Ty::Char | Ty::Bytes => true,
            _ => false,
        }
    }
    let mut r = c.rng.clone();
    let r = &mut r;
    let cfg = TyCfg { enums: 3, ..TyCfg::default() };
    let depth = r.below(3);
    let mut ty = gen_ty(r, &cfg, depth);
    if r.chance(1, 5) {
        ty = (*r.pick(&[Ty::Unit, Ty::UnitS("U"), Ty::Bytes, Ty::Any, Ty::Str, Ty::Char])).clone();
    }
    let show = |x: Result<TV, serde_yaml::Error>| x.map(|v| format!("{v:?}"));
    let read = |t: &str| show(as_type(&ty, || serde_yaml::from_str::<Root>(t)).map(|r| r.0));
    let reference = read("---\n");
    for t in ["---", "--- # c\n", "---\n...\n", "# c\n---\n# d\n", "%YAML 1.2\n---\n", "--- &a\n", "---\r\n"] {
        let got = read(t);
        ensure!(got.as_ref().ok() == reference.as_ref().ok(), "empties", "{t:?} reads as {got:?}, \"---\" as {reference:?}\ntype {ty:?}");
        c.ev("empty documents");
    }
    for t in ["", "\n", " \n", "# c\n", "\u{feff}", "\r\n \n# x", "# c", "\u{feff}# c\n"] {
        let got = match r.below(4) {
            0 => show(as_type(&ty, || serde_yaml::from_reader::<_, Root>(t.as_bytes())).map(|r| r.0)),
            1 => show(as_type(&ty, || serde_yaml::from_slice::<Root>(t.as_bytes())).map(|r| r.0)),
            2 => {
                let ds: Vec<_> = serde_yaml::Deserializer::from_str(t).collect();
                ensure!(ds.len() == 1, "empties", "{t:?} iterates as {} documents", ds.len());
                show(as_type(&ty, || ds.into_iter().map(Root::deserialize).next().unwrap()).map(|r| r.0))
            }
            _ => read(t),
        };
        if text_like(&ty) {
            ensure!(got.is_err(), "empties", "{t:?} reads as {got:?}\ntype {ty:?}");
        } else {
            ensure!(got.as_ref().ok() == reference.as_ref().ok(), "empties", "{t:?} reads as {got:?}, \"---\" as {reference:?}\ntype {ty:?}");
        }
        c.ev("streams without a document");
    }
    // the same absence inside collections
    let tys = [ty.clone(), Ty::Any];
    let pair = Ty::Tuple(tys.to_vec());
    let map = Ty::Map(Box::new(Ty::Str), Box::new(ty.clone()));
    for (t, w) in [("-\n- 1\n", &pair), ("- # c\n- 1\n", &pair), ("- &a\n- *a\n", &pair), ("k:\n", &map), ("k: # c\n", &map), ("{k: }", &map), ("{k}", &map), ("? k\n", &map), ("k: &a\n", &map)] {
        let got = as_type(w, || serde_yaml::from_str::<Root>(t)).map(|r| r.0);
        let inner = match &got {
            Ok(TV::Fields(v)) => Some(format!("{:?}", v[0])),
            Ok(TV::Map(v)) => Some(format!("{:?}", v[0].1)),
            Ok(_) => None,
            Err(_) => None,
        };
        ensure!(inner.as_ref() == reference.as_ref().ok(), "empties", "inside {t:?}: {got:?}, \"---\" is {reference:?}\ntype {ty:?}");
        c.ev("absent nodes in collections");
    }
    c.nontrivial(&format!("{ty:?}"));
    Ok(())
}
