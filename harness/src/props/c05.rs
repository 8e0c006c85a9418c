//! C05: the value read is the document's node graph.
use crate::any::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::raw::{self, Out};
use crate::render::*;
use serde::de::DeserializeSeed;
use serde_yaml::Value;
use std::collections::{BTreeMap, HashMap};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "random node graphs (anchors redefined, aliases anywhere, tags, duplicate keys) rendered in random block/flow/quoting/comment/line-break styles with the value known by construction, every short token sequence, and mutated documents decided by an independent composer over raw parser events; non-trivial = distinct document with a value",
        assumptions: &["the event parser dependency (unsafe-libyaml) is the reference for syntax; the non-specific tag '!' and tags starting with '!!' verbatim are left open", "between 50 and 200 alias expansions per event the repetition limit is left open"],
        subs: vec![
            exhaustive("tokens", |t| if t { pow(TOK.len(), 5) + pow(TOK.len(), 4) } else { pow(TOK.len(), 4) + pow(TOK.len(), 3) + 400_000 }, tokens),
            random("rendered", 6, rendered),
            random("aliases", 3, aliases),
            random("duplicates", 2, duplicates),
            random("mutated", 5, mutated),
        ],
        quick_secs: 16.0,
        thorough_secs: 450.0,
        stack_mb: 64,
    }
}
fn pow(a: usize, n: u32) -> u64 {
    (a as u64).pow(n)
}

/// Compare everything readable from one text with the composer.
pub fn check_text(c: &mut Case, text: &str) -> R {
    let got = serde_yaml::from_str::<Value>(text);
    match raw::single(text.as_bytes()) {
        Out::Unspec(_) => {
            c.ev("left open");
            Ok(())
        }
        Out::Err(why) => {
            ensure!(got.is_err(), "accepted", "document must be refused ({why}) but reads as {got:?}\n{text:?}");
            c.ev("refused as required");
            Ok(())
        }
        Out::Val(m) => {
            c.nontrivial(text);
            let v = match got {
                Ok(v) => v,
                Err(e) => return fail("refused", format!("document must read as {m:?} but fails: {e}\n{text:?}")),
            };
            let g = from_val(&v);
            ensure!(g.same(&m), "value", "document reads differently {}\n{text:?}\nexpected {m:?}\ngot      {g:?}", diff(&m, &g));
            c.ev("values equal to the node graph");
            typed(c, text, &m)
        }
    }
}

fn typed(c: &mut Case, text: &str, m: &M) -> R {
    match serde_yaml::from_str::<AnyM>(text) {
        Ok(AnyM(g)) => ensure!(g.same(m), "events", "a self-describing visitor sees something else {}\n{text:?}\nexpected {m:?}\ngot      {g:?}", diff(m, &g)),
        Err(e) => return fail("events", format!("a self-describing visitor fails: {e}\n{text:?}")),
    }
    // one descendant read, all others ignored
    let mut path = Vec::new();
    let mut cur = m;
    loop {
        while let M::Tag(_, inner) = cur {
            cur = inner;
        }
        let n = match cur {
            M::Seq(v) => v.len(),
            M::Map(v) => v.len(),
            _ => 0,
        };
        if n == 0 || c.rng.chance(1, 5) {
            break;
        }
        let i = c.rng.below(n);
        path.push(i);
        cur = match cur {
            M::Seq(v) => &v[i],
            M::Map(v) => &v[i].1,
            _ => unreachable!(),
        };
    }
    if !path.is_empty() {
        let want = at_path(m, &path).unwrap();
        match Pick(&path).deserialize(serde_yaml::Deserializer::from_str(text)) {
            Ok(Some(g)) => ensure!(g.same(want), "pick", "reading only the node at {path:?} gives {g:?}, expected {want:?}\n{text:?}"),
            r => return fail("pick", format!("reading only the node at {path:?}: {r:?}\n{text:?}")),
        }
        c.ev("single nodes picked");
    }
    match m {
        M::Seq(v) => {
            match serde_yaml::from_str::<Vec<Value>>(text) {
                Ok(g) => ensure!(M::Seq(g.iter().map(from_val).collect()).same(m), "vec", "into Vec<Value>: {g:?}\n{text:?}"),
                Err(e) => return fail("vec", format!("into Vec<Value>: {e}\n{text:?}")),
            }
            if v.len() == 2 {
                match serde_yaml::from_str::<(AnyM, AnyM)>(text) {
                    Ok((a, b)) => ensure!(M::Seq(vec![a.0.clone(), b.0.clone()]).same(m), "tuple", "into a pair: {a:?} {b:?}\n{text:?}"),
                    Err(e) => return fail("tuple", format!("into a pair: {e}\n{text:?}")),
                }
            }
            c.ev("typed sequences");
        }
        M::Map(v) => {
            match serde_yaml::from_str::<Pairs<Value>>(text) {
                Ok(g) => ensure!(M::Map(g.0.iter().map(|(k, v)| (from_val(k), from_val(v))).collect()).same(m), "pairs", "into pairs: {:?}\n{text:?}", g.0),
                Err(e) => return fail("pairs", format!("into pairs: {e}\n{text:?}")),
            }
            if v.iter().all(|(k, _)| matches!(k, M::S(_))) {
                let want: BTreeMap<String, &M> = v.iter().map(|(k, v)| (if let M::S(s) = k { s.clone() } else { unreachable!() }, v)).collect();
                match serde_yaml::from_str::<BTreeMap<String, AnyM>>(text) {
                    Ok(g) => ensure!(g.len() == want.len() && g.iter().all(|(k, v)| want.get(k).map_or(false, |w| w.same(&v.0))), "btreemap", "into BTreeMap<String, _>: {g:?}\n{text:?}"),
                    Err(e) => return fail("btreemap", format!("into BTreeMap<String, _>: {e}\n{text:?}")),
                }
                match serde_yaml::from_str::<HashMap<String, Value>>(text) {
                    Ok(g) => ensure!(g.len() == want.len() && g.iter().all(|(k, v)| want.get(k).map_or(false, |w| w.same(&from_val(v)))), "hashmap", "into HashMap<String, _>: {g:?}\n{text:?}"),
                    Err(e) => return fail("hashmap", format!("into HashMap<String, _>: {e}\n{text:?}")),
                }
                c.ev("typed maps");
            }
        }
        _ => {}
    }
    Ok(())
}

fn opts(r: &mut Rng) -> GenOpts {
    GenOpts { anchors: !r.chance(1, 4), tags: !r.chance(1, 4), core_tags: r.bool(), blocks: true, multiline: true, e_handle: r.chance(1, 8) }
}

fn rendered(c: &mut Case) -> R {
    let o = opts(&mut c.rng);
    let fuel = c.rng.range(1, 40);
    let depth = c.rng.range(0, 5);
    let d = gen_doc(&mut c.rng, depth, fuel, o);
    c.sample(|| d.text.clone());
    // two independent oracles: construction and composition must agree, else no verdict from construction
    match raw::single(d.text.as_bytes()) {
        Out::Val(m) if m.same(&d.m) => c.ev("construction and composer agree"),
        Out::Val(m) => {
            c.ev("construction and composer differ");
            if std::env::var_os("HARNESS_DEBUG").is_some() {
                eprintln!("--- differ: {}\n{}\n{:?}", diff(&d.m, &m), d.text, d.text);
            }
        }
        Out::Err(e) => {
            c.ev("rendered text refused by the parser");
            if std::env::var_os("HARNESS_DEBUG").is_some() {
                let x = raw::docs(d.text.as_bytes());
                eprintln!("--- refused {e} {:?}:\n{}\n{:?}", x.err, d.text, d.text);
            }
        }
        Out::Unspec(_) => c.ev("rendered left open"),
    }
    check_text(c, &d.text)
}

/// Small documents dominated by anchors and aliases, including redefinitions.
fn aliases(c: &mut Case) -> R {
    let n = c.rng.range(2, 8);
    let mut t = String::new();
    let names = ["a", "b", "c"];
    let flow = c.rng.bool();
    if flow {
        t.push('[');
    }
    for i in 0..n {
        let name = names[c.rng.below(3)];
        let item = match c.rng.below(12) {
            0..=2 => format!("*{name} "),
            3..=4 => format!("&{name} v{i}"),
            5 => format!("&{name} [&{} x{i}, *{name} ]", names[c.rng.below(3)]),
            6 => format!("&{name} [*{} , y{i}]", names[c.rng.below(3)]),
            7 => format!("&{name} {{k: &{} z{i}, l: *{} }}", names[c.rng.below(3)], names[c.rng.below(3)]),
            8 => format!("{{*{name} : w{i}}}"),
            9 => format!("{{? &{name} [p{i}] : *{name} }}"),
            10 => format!("!t{i} &{name} u{i}"),
            _ => format!("&{name} !s {{*{} : *{} }}", names[c.rng.below(3)], names[c.rng.below(3)]),
        };
        if flow {
            if i > 0 {
                t.push_str(", ");
            }
            t.push_str(&item);
        } else {
            t.push_str("- ");
            t.push_str(&item);
            t.push('\n');
        }
    }
    if flow {
        t.push(']');
    }
    if c.rng.chance(1, 6) {
        // anchors do not cross documents
        let name = names[c.rng.below(3)];
        t = format!("--- &{name} 1\n---\n{t}");
        let mut it = serde_yaml::Deserializer::from_str(&t);
        let _ = it.next();
        if let Some(d) = it.next() {
            let got = <Value as serde::Deserialize>::deserialize(d);
            let docs = raw::docs(t.as_bytes());
            if docs.err.is_none() && docs.docs.len() == 2 {
                match raw::compose(&docs.docs[1].events) {
                    Out::Val(m) => ensure!(matches!(&got, Ok(v) if from_val(v).same(&m)), "second-doc", "second document reads as {got:?}, expected {m:?}\n{t:?}"),
                    Out::Err(w) => ensure!(got.is_err(), "second-doc", "second document must be refused ({w}) but reads as {got:?}\n{t:?}"),
                    _ => {}
                }
                c.ev("second documents");
            }
        }
        return Ok(());
    }
    check_text(c, &t)
}

fn duplicates(c: &mut Case) -> R {
    // pairs of spellings of equal or different keys
    const EQ: &[&[&str]] = &[
        &["a", "'a'", "\"a\"", "\"\\x61\"", "!!str a", "*k0 "],
        &["1", "0x1", "+1", "0b1", "0o1", "!!int '1'"],
        &["1.0", "1.", "10e-1", "+1.0", "!!float '1'", "!!float 1"],
        &["true", "True", "TRUE", "!!bool 'true'"],
        &["~", "null", "NULL", "!!null 'null'"],
        &["'1'", "\"1\"", "!!str 1"],
        &["[1, 2]", "[0x1, 2]", "[ 1, 2 ]"],
        &["{p: 1, q: 2}", "{q: 2, p: 1}"],
        &["!t a", "!t 'a'"],
        &["!u a", "!u \"a\""],
        &["0.0", "-0.0", "0e0"],
        &[".nan", ".NaN", ".NAN"],
        &["0", "-0", "+0"],
        &["''", "\"\"", "!!str ''"],
        &["<<", "'<<'"],
        &["18446744073709551615", "0xFFFFFFFFFFFFFFFF"],
        &[".inf", "+.inf"],
    ];
    let n = c.rng.range(2, 5);
    let mut t = String::new();
    let style = c.rng.below(3);
    for i in 0..n {
        let g = *c.rng.pick(EQ);
        let k = *c.rng.pick(g);
        if style == 0 {
            t.push_str(&format!("? {k}\n: v{i}\n"));
        } else {
            t.push_str(if i == 0 { "" } else { ", " });
            t.push_str(&format!("? {k} : v{i}"));
        }
    }
    let t = match style {
        0 => t,
        1 => format!("{{{t}}}"),
        _ => format!("outer:\n- &k0 a\n- {{{t}}}\n"),
    };
    check_text(c, &t)
}

pub fn mutate(r: &mut Rng, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    const INS: &[&str] = &["\n", " ", "  ", "- ", ": ", ":", "[", "]", "{", "}", ",", "&a ", "*a", "!t ", "!!int ", "'", "\"", "#", " #", "? ", "|\n", ">\n", "---\n", "...\n", "%", "~", "\t", "\r", "\\", "a", "1", "é", "\u{feff}", "*b ", "&b ", "<<: ", "--- ", "!<", ">", "\u{85}", "\u{2028}"];
    for _ in 0..r.range(1, 4) {
        let n = cs.len();
        match r.below(8) {
            0 if n > 0 => {
                let i = r.below(n);
                cs.remove(i);
            }
            1 | 2 => {
                let i = r.below(n + 1);
                let s: Vec<char> = r.pick(INS).chars().collect();
                cs.splice(i..i, s);
            }
            3 if n > 0 => {
                // delete a range
                let i = r.below(n);
                let j = (i + r.range(1, 8)).min(n);
                cs.drain(i..j);
            }
            4 if n > 0 => {
                // duplicate a range elsewhere
                let i = r.below(n);
                let j = (i + r.range(1, 20)).min(n);
                let s: Vec<char> = cs[i..j].to_vec();
                let k = r.below(n + 1);
                cs.splice(k..k, s);
            }
            5 if n > 0 => {
                let i = r.below(n);
                cs[i] = *r.pick(&[' ', '\n', ':', '-', '&', '*', '!', '#', 'a', '[', ']', '{', '}', ',', '"', '\'', '|', '>', '?', '%']);
            }
            6 if n > 0 => {
                let i = r.below(n);
                cs.truncate(i);
            }
            _ => {
                // duplicate or drop a line
                let lines: Vec<String> = cs.iter().collect::<String>().split('\n').map(|s| s.to_string()).collect();
                let i = r.below(lines.len());
                let mut l2 = lines.clone();
                if r.bool() {
                    let k = r.below(lines.len() + 1);
                    l2.insert(k, lines[i].clone());
                } else {
                    l2.remove(i);
                }
                cs = l2.join("\n").chars().collect();
            }
        }
    }
    cs.into_iter().collect()
}

fn mutated(c: &mut Case) -> R {
    let o = opts(&mut c.rng);
    let fuel = c.rng.range(1, 15);
    let d = gen_doc(&mut c.rng, 3, fuel, o);
    let t = mutate(&mut c.rng, &d.text);
    check_text(c, &t)
}

pub const TOK: &[&str] = &["- ", "a", "b", ": ", "\n", "  ", "[", "]", "{", "}", ", ", "&x ", "*x ", "!t ", "? ", "'q'", " # c", "|\n", "---\n", "...\n", "\"d\"", "1"];
pub fn tok_text(mut idx: u64) -> String {
    let a = TOK.len() as u64;
    let mut len = 0;
    let mut block = 1;
    while idx >= block {
        idx -= block;
        block *= a;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(TOK[(idx % a) as usize]);
        idx /= a;
    }
    s
}
fn tokens(c: &mut Case, idx: u64) -> R {
    let t = tok_text(idx);
    check_text(c, &t)?;
    if idx % 3 == 0 {
        check_text(c, &format!("k:\n  - {t}"))?;
    }
    Ok(())
}
