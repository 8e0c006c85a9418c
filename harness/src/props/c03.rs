//! C03: any string survives in any position and stays a string.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "every Unicode scalar value as 1-char string and as char; every string up to a small length over a hostile alphabet; dictionary, mutated, long and random strings; each in ten positions read back typed and untyped; non-trivial = distinct string",
        assumptions: &[],
        subs: vec![
            exhaustive("every-char", |_| 0x110000 / 16, every_char),
            exhaustive("short-strings", |t| if t { SHORT3 + 60_000_000 / 40 } else { SHORT3 / 2 }, short_strings),
            exhaustive("dictionary", |_| (crate::dict::HOSTILE.len() + crate::dict::dict().strings.len()) as u64, dictionary),
            random("strings", 4, strings),
            random("neighbours", 3, neighbours),
            exhaustive("beyond-the-limit", |_| 4, beyond),
        ],
        quick_secs: 14.0,
        thorough_secs: 400.0,
        stack_mb: 32,
    }
}

/// Strings longer than the emitter can count (untouched zero pages, which cost
/// no memory) must be refused; whatever is written instead must at least be as long.
fn beyond(c: &mut Case, idx: u64) -> R {
    use std::alloc::{GlobalAlloc, Layout, System};
    if small() || c.solo {
        return Ok(());
    }
    struct Count(u64);
    impl std::io::Write for Count {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0 += b.len() as u64;
            // enough is known
            if self.0 > 1 << 20 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "long enough"));
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let n = [1usize << 31, (1 << 32) + 3, (1 << 31) + 5, 1 << 32][idx as usize];
    let l = Layout::from_size_align(n, 1).unwrap();
    let p = unsafe { System.alloc_zeroed(l) };
    if p.is_null() {
        c.ev("no room for a huge string");
        return Ok(());
    }
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    let mut w = Count(0);
    let r = if idx < 2 { serde_yaml::to_writer(&mut w, s) } else { serde_yaml::to_writer(&mut w, &(1u8, BTreeMap::from([("k", s)]))) };
    unsafe { System.dealloc(p, l) };
    c.nontrivial(&(n, idx));
    c.ev(if r.is_ok() { "huge strings written" } else { "huge strings refused" });
    ensure!(r.is_err(), "truncated", "a string of {n} NULs was written, with success, as {} bytes", w.0);
    Ok(())
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Rec {
    before: i32,
    text: String,
    after: i32,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum En {
    New(String),
    Tup(String, i32),
    Str { s: String },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Nt(String);

fn ser<T: Serialize>(t: &T, s: &str, pos: &str) -> Result<String, Fail> {
    match serde_yaml::to_string(t) {
        Ok(t) => Ok(t),
        Err(e) => fail("serialize-error", format!("string {s:?} in position {pos}: serializing failed: {e}")),
    }
}
fn de<'a, T: Deserialize<'a>>(t: &'a str, s: &str, pos: &str) -> Result<T, Fail> {
    match serde_yaml::from_str(t) {
        Ok(t) => Ok(t),
        Err(e) => fail("parse-error", format!("string {s:?} in position {pos}: own output does not parse: {e}\ntext {t:?}")),
    }
}
fn typed<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(t: &T, s: &str, pos: &str) -> Result<String, Fail> {
    let y = ser(t, s, pos)?;
    let b: T = de(&y, s, pos)?;
    ensure!(b == *t, "typed", "string {s:?} in position {pos} read back as {b:?}\ntext {y:?}");
    Ok(y)
}
fn untyped(y: &str, want: &M, s: &str, pos: &str) -> R {
    let v: Value = de(y, s, pos)?;
    let m = from_val(&v);
    ensure!(m.same(want), "untyped", "string {s:?} in position {pos} read back untyped as {m:?}\ntext {y:?}");
    Ok(())
}

fn root(s: &str) -> R {
    let y = typed(&s.to_string(), s, "root")?;
    untyped(&y, &M::s(s), s, "root")?;
    // stream position: one document only
    let n = serde_yaml::Deserializer::from_str(&y).count();
    ensure!(n == 1, "documents", "string {s:?} at the root makes {n} documents: {y:?}");
    Ok(())
}

/// All positions.
pub fn everywhere(c: &mut Case, s: &str) -> R {
    root(s)?;
    let own = s.to_string();
    let y = typed(&vec![own.clone(), "m".into(), own.clone()], s, "sequence element")?;
    untyped(&y, &M::Seq(vec![M::s(s), M::s("m"), M::s(s)]), s, "sequence element")?;
    let mut m = BTreeMap::new();
    m.insert(own.clone(), 1);
    let y = typed(&m, s, "only key")?;
    untyped(&y, &M::Map(vec![(M::s(s), M::Int(1))]), s, "only key")?;
    let v = M::Map(vec![(M::s("\u{1}first"), M::Int(1)), (M::s(s), M::s(s)), (M::s("last\u{2}"), M::s(s))]);
    if s != "\u{1}first" && s != "last\u{2}" {
        let y = ser(&to_val(&v), s, "key and value")?;
        untyped(&y, &v, s, "key and value")?;
    }
    let rec = Rec { before: -1, text: own.clone(), after: 7 };
    let y = typed(&rec, s, "struct field")?;
    untyped(&y, &M::Map(vec![(M::s("before"), M::Int(-1)), (M::s("text"), M::s(s)), (M::s("after"), M::Int(7))]), s, "struct field")?;
    let y = typed(&En::New(own.clone()), s, "tagged payload")?;
    untyped(&y, &M::Tag("New".into(), Box::new(M::s(s))), s, "tagged payload")?;
    let y = typed(&vec![En::New(own.clone())], s, "tagged payload in sequence")?;
    untyped(&y, &M::Seq(vec![M::Tag("New".into(), Box::new(M::s(s)))]), s, "tagged payload in sequence")?;
    typed(&En::Tup(own.clone(), 3), s, "tuple variant")?;
    typed(&En::Str { s: own.clone() }, s, "struct variant")?;
    typed(&Nt(own.clone()), s, "newtype struct")?;
    typed(&Some(own.clone()), s, "option")?;
    typed(&(own.clone(), (own.clone(), 4u8)), s, "nested tuple")?;
    // nested in depth: sequence in sequence in mapping
    let v = M::Map(vec![(M::s("k"), M::Seq(vec![M::Seq(vec![M::s(s), M::Int(2)]), M::Map(vec![(M::s(s), M::Seq(vec![M::s(s)]))])]))]);
    let y = ser(&to_val(&v), s, "nested")?;
    untyped(&y, &v, s, "nested")?;
    // tagged mapping key
    let v = M::Map(vec![(M::Tag("t".into(), Box::new(M::s(s))), M::Int(1)), (M::Seq(vec![M::s(s)]), M::Int(2))]);
    let y = ser(&to_val(&v), s, "composite key")?;
    untyped(&y, &v, s, "composite key")?;
    c.evn("positions read back", 21);
    Ok(())
}

fn every_char(c: &mut Case, idx: u64) -> R {
    for cp in idx as u32 * 16..idx as u32 * 16 + 16 {
        let ch = match char::from_u32(cp) {
            Some(ch) => ch,
            None => continue,
        };
        let s = ch.to_string();
        c.nontrivial(&s);
        let pos = "char";
        let y = typed(&ch, &s, pos)?;
        untyped(&y, &M::s(&s), &s, pos)?;
        let v = M::Map(vec![(M::s(&s), M::s(&s)), (M::s("zz"), M::Seq(vec![M::s(&s), M::Int(1)]))]);
        let y = ser(&to_val(&v), &s, pos)?;
        untyped(&y, &v, &s, pos)?;
        root(&s)?;
        for s in [format!("a{ch}"), format!("{ch}a"), format!("a{ch}b"), format!("a{ch}\nb"), format!("{ch}1"), format!("\n{ch}")] {
            root(&s)?;
            let v = M::Seq(vec![M::s(&s), M::Int(1)]);
            let y = ser(&to_val(&v), &s, "element")?;
            untyped(&y, &v, &s, "element")?;
        }
        let y = typed(&vec![ch, 'x'], &s, "chars")?;
        untyped(&y, &M::Seq(vec![M::s(&s), M::s("x")]), &s, "chars")?;
        c.ev("scalar values");
        if (cp < 0x3000 || cp % 97 == 0) && c.thorough || cp < 0x100 || cp >= 0x2000 && cp < 0x2070 {
            everywhere(c, &s)?;
        }
    }
    Ok(())
}

const AL: &[char] = &['a', ' ', '\n', ':', '#', '-', '0', '1', '.', '\'', '"', '!', '\t', 'é', '~', '[', ',', '?', '|', 'e', '+', '\u{85}', '&', '*', '{', '}', ']', '>', '%', '@', '\\', 'x', '\r', '<', '=', '\u{feff}', '\u{0}', '\u{2028}'];
const N: u64 = 38;
const SHORT3: u64 = 1 + N + N * N + N * N * N;
fn nth(mut i: u64) -> String {
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= N;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(AL[(i % N) as usize]);
        i /= N;
    }
    s
}
fn short_strings(c: &mut Case, idx: u64) -> R {
    debug_assert_eq!(AL.len() as u64, N);
    let idx = if idx < SHORT3 {
        // quick covers every other one of the three-char strings, fully below that
        if !c.thorough && idx > N + N * N {
            (idx - N - N * N) * 2 + N + N * N - (seed_parity() as u64)
        } else {
            idx
        }
    } else {
        SHORT3 + (idx - SHORT3) * 41
    };
    let s = nth(idx);
    c.nontrivial(&s);
    root(&s)?;
    let v = M::Map(vec![(M::s(&s), M::s(&s)), (M::s("zz"), M::Seq(vec![M::s(&s), M::Int(1)]))]);
    let y = ser(&to_val(&v), &s, "short")?;
    untyped(&y, &v, &s, "short")?;
    c.evn("positions read back", 4);
    Ok(())
}
fn seed_parity() -> u8 {
    (std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1) & 1) as u8
}

fn dictionary(c: &mut Case, idx: u64) -> R {
    let h = crate::dict::HOSTILE.len() as u64;
    let s = if idx < h { crate::dict::HOSTILE[idx as usize].to_string() } else { crate::dict::dict().strings[(idx - h) as usize].clone() };
    c.nontrivial(&s);
    everywhere(c, &s)?;
    for t in [s.to_uppercase(), s.to_lowercase(), format!(" {s}"), format!("{s} "), format!("{s}\n"), format!("\n{s}"), format!("{s}{s}"), format!("-{s}"), format!("+{s}"), format!("{s}:"), format!("{s} #"), format!("a {s}"), format!("{s}\n{s}"), format!("{s}0"), format!("0{s}")] {
        everywhere(c, &t)?;
    }
    Ok(())
}

fn strings(c: &mut Case) -> R {
    let s = gen_string(&mut c.rng);
    c.nontrivial(&s);
    c.sample(|| format!("{s:?}"));
    everywhere(c, &s)
}

/// Several hostile strings next to each other.
fn neighbours(c: &mut Case) -> R {
    let n = c.rng.range(2, 7);
    let ss: Vec<String> = (0..n).map(|_| gen_string(&mut c.rng)).collect();
    c.nontrivial(&ss);
    let name = format!("{ss:?}");
    let want = M::Seq(ss.iter().map(|s| M::s(s)).collect());
    let y = typed(&ss, &name, "neighbours")?;
    untyped(&y, &want, &name, "neighbours")?;
    let mut seen = std::collections::HashSet::new();
    let m = M::Map(ss.iter().filter(|s| seen.insert(s.as_str())).map(|s| (M::s(s), M::Seq(vec![M::s(s), M::Map(vec![(M::s("i"), M::s(s)), (M::s(s), M::Null)])].into_iter().take(if s == "i" { 1 } else { 2 }).collect()))).collect());
    let y = ser(&to_val(&m), &name, "neighbours map")?;
    untyped(&y, &m, &name, "neighbours map")?;
    // several documents in one stream
    let mut buf = Vec::new();
    {
        let mut se = serde_yaml::Serializer::new(&mut buf);
        for s in &ss {
            if let Err(e) = s.serialize(&mut se) {
                return fail("serialize-error", format!("{name} as documents: {e}"));
            }
        }
    }
    let text = String::from_utf8_lossy(&buf).into_owned();
    let back: Result<Vec<String>, _> = serde_yaml::Deserializer::from_str(&text).map(String::deserialize).collect();
    match back {
        Ok(b) => ensure!(b == ss, "documents", "strings {name} as documents read back {b:?}\ntext {text:?}"),
        Err(e) => return fail("parse-error", format!("strings {name} as documents do not parse: {e}\ntext {text:?}")),
    }
    c.evn("positions read back", 5);
    Ok(())
}
