//! C06: the result does not depend on how the input is supplied.
use crate::any::*;
use crate::ensure;
use crate::fw::*;
use crate::raw;
use crate::texts;
use serde::de::DeserializeOwned;
use serde_yaml::{Deserializer, Error, Mapping, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{self, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "valid, mutated and malformed texts and byte strings, read into a dozen target types through every input route; readers with random chunk sizes and interruptions, and failing at every byte offset; non-trivial = distinct input",
        assumptions: &["targets own their data"],
        subs: vec![random("routes", 6, routes), random("faults", 3, faults), random("chunks", 2, big), random("encoding", 2, encoding)],
        quick_secs: 20.0,
        thorough_secs: 420.0,
        stack_mb: 64,
    }
}

/// A reader driven by a script.
pub struct Script<'a> {
    data: &'a [u8],
    pos: usize,
    rng: Rng,
    mode: u8,
    /// fail when the position reaches this offset
    fail_at: Option<usize>,
    err: Option<io::Error>,
    pub interrupts: u64,
    pub reads: u64,
    pub after_error: u64,
    errored: bool,
}
impl<'a> Script<'a> {
    pub fn new(data: &'a [u8], rng: Rng, mode: u8) -> Self {
        Script { data, pos: 0, rng, mode, fail_at: None, err: None, interrupts: 0, reads: 0, after_error: 0, errored: false }
    }
}
impl<'a> Read for Script<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.errored {
            self.after_error += 1;
        }
        if self.mode & 1 != 0 && self.rng.chance(1, 3) {
            self.interrupts += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if let Some(k) = self.fail_at {
            if self.pos >= k {
                if let Some(e) = self.err.take() {
                    self.errored = true;
                    return Err(e);
                }
            }
        }
        let mut max = buf.len().min(self.data.len() - self.pos);
        if let Some(k) = self.fail_at {
            if self.pos < k {
                max = max.min(k - self.pos);
            }
        }
        let n = match self.mode >> 1 {
            0 => max,
            1 => max.min(1),
            2 => max.min(1 + self.rng.below(7)),
            _ => max.min(1 + self.rng.below(5000)),
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(PartialEq, Debug)]
enum Outcome<T> {
    Val(T),
    Err(String, Option<(usize, usize, usize)>, String),
}
fn outcome<T>(r: Result<T, Error>) -> Outcome<T> {
    match r {
        Ok(t) => Outcome::Val(t),
        Err(e) => Outcome::Err(e.to_string(), e.location().map(|l| (l.index(), l.line(), l.column())), format!("{e:?}")),
    }
}

/// Compared through Debug so that NaN, order and bit patterns count.
fn same_everywhere<T: DeserializeOwned + Debug>(c: &mut Case, b: &[u8], what: &str) -> R {
    let base = format!("{:?}", outcome(serde_yaml::from_slice::<T>(b)));
    let utf8 = std::str::from_utf8(b).ok();
    let show = |b: &[u8]| format!("{:?}", String::from_utf8_lossy(b));
    if let Some(s) = utf8 {
        let g = format!("{:?}", outcome(serde_yaml::from_str::<T>(s)));
        ensure!(g == base, "str", "{what}: from_str {g}\nfrom_slice {base}\ninput {}", show(b));
        let g = format!("{:?}", outcome(T::deserialize(Deserializer::from_str(s))));
        ensure!(g == base, "deserializer", "{what}: Deserializer::from_str {g}\nfrom_slice {base}\ninput {}", show(b));
    } else {
        ensure!(base.starts_with("Err"), "invalid-utf8", "{what}: input that is not UTF-8 reads as {base}\ninput {}", show(b));
        c.ev("invalid UTF-8 refused");
    }
    let mode = c.rng.below(8) as u8;
    let mut rd = Script::new(b, c.rng.clone(), mode);
    c.rng.next();
    let g = format!("{:?}", outcome(serde_yaml::from_reader::<_, T>(&mut rd)));
    c.evn("reads", rd.reads);
    c.evn("interruptions", rd.interrupts);
    ensure!(g == base, "reader", "{what}: from_reader (mode {mode}) {g}\nfrom_slice {base}\ninput {}", show(b));
    ensure!(rd.pos == b.len(), "reader-unread", "{what}: reader consumed only {} of {} bytes\ninput {}", rd.pos, b.len(), show(b));
    let g = format!("{:?}", outcome(T::deserialize(Deserializer::from_slice(b))));
    ensure!(g == base, "deserializer", "{what}: Deserializer::from_slice {g}\nfrom_slice {base}\ninput {}", show(b));
    // the iterator, when there is a single document
    let d = raw::docs(b);
    let single = match (&d.err, d.docs.len()) {
        (None, 0) | (None, 1) => true,
        (Some(_), 0) => true,
        (Some(_), 1) => d.docs[0].cut,
        _ => false,
    };
    if single {
        let mut it = Deserializer::from_slice(b);
        let g = match it.next() {
            Some(x) => format!("{:?}", outcome(T::deserialize(x))),
            None => "nothing".into(),
        };
        ensure!(g == base, "iterator", "{what}: iterator over a slice {g}\nfrom_slice {base}\ninput {}", show(b));
        if d.err.is_none() {
            ensure!(it.next().is_none(), "iterator-end", "{what}: iterator yields a second document\ninput {}", show(b));
        }
        let mut it = Deserializer::from_reader(Script::new(b, c.rng.clone(), mode ^ 3));
        let g = match it.next() {
            Some(x) => format!("{:?}", outcome(T::deserialize(x))),
            None => "nothing".into(),
        };
        ensure!(g == base, "iterator", "{what}: iterator over a reader {g}\nfrom_slice {base}\ninput {}", show(b));
        if let Some(s) = utf8 {
            let mut it = Deserializer::from_str(s);
            let g = match it.next() {
                Some(x) => format!("{:?}", outcome(T::deserialize(x))),
                None => "nothing".into(),
            };
            ensure!(g == base, "iterator", "{what}: iterator over a string {g}\nfrom_slice {base}\ninput {}", show(b));
        }
        c.ev("single-document streams also iterated");
    }
    c.ev(if base.starts_with("Val") { "values agreed on" } else { "errors agreed on" });
    Ok(())
}

#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
enum En {
    A,
    Tag(Value),
    T { k: Option<Value> },
}
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct St {
    a: Option<Value>,
    b: Option<i64>,
    #[serde(default)]
    key: Option<String>,
}
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
#[serde(untagged)]
enum Un {
    N(u64),
    I(i64),
    F(f64),
    B(bool),
    S(String),
    V(Vec<Un>),
    M(BTreeMap<String, Un>),
}

fn any_type(c: &mut Case, b: &[u8]) -> R {
    same_everywhere::<Value>(c, b, "Value")?;
    match c.rng.below(14) {
        0 => same_everywhere::<AnyM>(c, b, "AnyM"),
        1 => same_everywhere::<String>(c, b, "String"),
        2 => same_everywhere::<Vec<Value>>(c, b, "Vec<Value>"),
        3 => same_everywhere::<BTreeMap<String, Value>>(c, b, "BTreeMap<String, Value>"),
        4 => same_everywhere::<Option<i32>>(c, b, "Option<i32>"),
        5 => same_everywhere::<Mapping>(c, b, "Mapping"),
        6 => same_everywhere::<En>(c, b, "enum"),
        7 => same_everywhere::<St>(c, b, "struct"),
        8 => same_everywhere::<()>(c, b, "()"),
        9 => same_everywhere::<f64>(c, b, "f64"),
        10 => same_everywhere::<Un>(c, b, "untagged enum"),
        11 => same_everywhere::<serde::de::IgnoredAny>(c, b, "IgnoredAny"),
        12 => same_everywhere::<Vec<Vec<String>>>(c, b, "Vec<Vec<String>>"),
        _ => same_everywhere::<serde_yaml::Number>(c, b, "Number"),
    }
}

fn routes(c: &mut Case) -> R {
    let b = texts::bytes(&mut c.rng);
    c.nontrivial(&b);
    c.sample(|| String::from_utf8_lossy(&b).into_owned());
    any_type(c, &b)
}

/// Inputs longer than the buffers in between.
fn big(c: &mut Case) -> R {
    let n = [1000, 4090, 4096, 8190, 8192, 16384, 20000, 40000, 65536][c.rng.below(9)] + c.rng.below(5);
    let ch = *c.rng.pick(&["a", "é", "日", "😀", "a ", "x\n  ", "\\\\"]);
    let mut body = String::new();
    body.push_str(*c.rng.pick(&["k: ", "- ", "\"", "k: \"", "- |\n  ", "- >\n  ", "'", "# ", ""]));
    let quote = match body.chars().last() {
        Some(q @ ('"' | '\'')) => q.to_string(),
        _ => String::new(),
    };
    while body.len() < n {
        body.push_str(ch);
    }
    body.push_str(&quote);
    body.push('\n');
    if c.rng.chance(1, 4) {
        body.insert(0, '\u{feff}');
    }
    let mut b = body.into_bytes();
    if c.rng.chance(1, 5) {
        let i = c.rng.below(b.len());
        b[i] = 0xff;
    }
    c.nontrivial(&b);
    same_everywhere::<Value>(c, &b, "Value")
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

fn faults(c: &mut Case) -> R {
    let mut b = texts::bytes(&mut c.rng);
    b.truncate(300);
    c.nontrivial(&b);
    let show = String::from_utf8_lossy(&b).into_owned();
    for at in 0..=b.len() {
        let kind = *c.rng.pick(KINDS);
        let (err, text) = if c.rng.chance(1, 4) {
            let e = io::Error::from_raw_os_error(5);
            let t = e.to_string();
            (e, t)
        } else {
            let t = format!("injected fault {at} of kind {kind:?}");
            (io::Error::new(kind, t.clone()), t)
        };
        let mut rd = Script::new(&b, c.rng.clone(), c.rng.below(8) as u8);
        rd.fail_at = Some(at);
        rd.err = Some(err);
        let route = c.rng.below(4);
        let got: Result<String, Error> = match route {
            0 => serde_yaml::from_reader::<_, Value>(&mut rd).map(|v| format!("{v:?}")),
            1 => serde_yaml::from_reader::<_, AnyM>(&mut rd).map(|v| format!("{v:?}")),
            2 => serde_yaml::from_reader::<_, serde::de::IgnoredAny>(&mut rd).map(|v| format!("{v:?}")),
            _ => {
                // the iterator: whatever it yields, the first document is the error
                let mut it = Deserializer::from_reader(&mut rd);
                match it.next() {
                    Some(d) => <Value as serde::Deserialize>::deserialize(d).map(|v| format!("{v:?}")),
                    None => Ok("an empty stream".into()),
                }
            }
        };
        match got {
            Ok(v) => return fail("fault-lost", format!("reader failed at byte {at} but the result is {v}\ninput {show:?}")),
            Err(e) => {
                ensure!(e.to_string() == text, "fault-replaced", "reader failed at byte {at} with {text:?} but the error is {e:?}\ninput {show:?}");
                ensure!(e.location().is_none(), "fault-located", "I/O error has a location: {e:?} {:?}", e.location());
                c.ev("injected faults returned");
            }
        }
    }
    Ok(())
}

fn encoding(c: &mut Case) -> R {
    // a byte order mark changes nothing; broken encodings are errors
    let t = texts::text(&mut c.rng);
    if !t.starts_with('\u{feff}') {
        let with = format!("\u{feff}{t}");
        let a = serde_yaml::from_str::<Value>(&t);
        let b = serde_yaml::from_str::<Value>(&with);
        match (&a, &b) {
            (Ok(x), Ok(y)) => ensure!(format!("{x:?}") == format!("{y:?}"), "bom", "a byte order mark changes {x:?} into {y:?}\n{t:?}"),
            (Err(x), Err(y)) => {
                if let (Some(p), Some(q)) = (x.location(), y.location()) {
                    if !(p.line() == 1 && p.column() == 1) {
                        ensure!(x.to_string() == y.to_string() && p.line() == q.line() && p.column() == q.column() && p.index() + 3 == q.index(), "bom-error", "a byte order mark changes the error {x:?} at {p:?} into {y:?} at {q:?}\n{t:?}");
                    }
                }
            }
            _ => return fail("bom", format!("a byte order mark changes {a:?} into {b:?}\n{t:?}")),
        }
        c.ev("byte order marks");
    }
    // every invalid byte sequence at some place inside scalar content
    const BAD: &[&[u8]] = &[b"\xff", b"\xc0\xaf", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xc2", b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xbf", b"\xc2\x41", b"\xe2\x41\x41", b"\xe2\x82\x41", b"\xf0\x9f\x98\x41"];
    let tpl = *c.rng.pick(&["a@b", "k: @", "- '@'", "\"@\"", "|\n  @\n", "# @\nk: v", "@", "&@ x", "!@ x", "{a: @}"]);
    let bad = *c.rng.pick(BAD);
    let mut v = Vec::new();
    for ch in tpl.bytes() {
        if ch == b'@' {
            v.extend_from_slice(bad);
        } else {
            v.push(ch);
        }
    }
    c.nontrivial(&v);
    let g = serde_yaml::from_slice::<Value>(&v);
    ensure!(g.is_err(), "invalid-utf8", "{v:x?} reads as {g:?}");
    same_everywhere::<Value>(c, &v, "Value")?;
    same_everywhere::<String>(c, &v, "String")
}
