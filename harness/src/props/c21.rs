//! C21: every call is a function of its arguments: nothing is carried over from
//! earlier calls (however they ended), other threads or the environment.
use crate::any::*;
use crate::dynty::*;
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::texts;
use serde::de::{self, Deserialize, DeserializeOwned, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStructVariant, SerializeTupleVariant};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Deserializer, Error, Mapping, Number, Serializer, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Debug, Write as _};
use std::io::{self, Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Barrier, Mutex, OnceLock};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "the same call observed alone in a fresh process (other environment, other directory), after a history of completed, failed, abandoned and panicking calls, on several threads at once and inside callbacks of other calls has the same outcome, character for character",
        assumptions: &["the pool of calls repeats: its size is in the evidence", "values are compared through their printed form, errors through message, debug form and location"],
        subs: vec![
            random("history", 6, history),
            random("callbacks", 4, callbacks),
            random("threads", 1, threads),
        ],
        quick_secs: 25.0,
        thorough_secs: 300.0,
        stack_mb: 64,
    }
}

// ---- the pool of calls ---------------------------------------------------

fn pool(thorough: bool) -> usize {
    if thorough {
        60_000
    } else {
        3_000
    }
}
fn some_op(r: &mut Rng, thorough: bool) -> u64 {
    mix(r.below(pool(thorough)) as u64 ^ 0xC21)
}

fn err(out: &mut String, e: &Error) {
    let l = e.location().map(|l| (l.line(), l.column(), l.index()));
    let _ = write!(out, "E[{e}|{e:?}|{l:?}]");
    let mut s = std::error::Error::source(e);
    while let Some(x) = s {
        let _ = write!(out, "<-{x}");
        s = x.source();
    }
}
fn res<T: Debug>(out: &mut String, r: Result<T, Error>) {
    match r {
        Ok(v) => {
            let _ = write!(out, "V[{v:?}]");
        }
        Err(e) => err(out, &e),
    }
}
fn text(out: &mut String, r: Result<String, Error>) {
    match r {
        Ok(v) => {
            let _ = write!(out, "T[{v:?}]");
        }
        Err(e) => err(out, &e),
    }
}

#[derive(serde::Deserialize, serde::Serialize, Debug)]
enum En {
    A,
    N(Value),
    T(u8, String),
    S { k: Option<Value> },
}
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
struct St {
    a: Option<Value>,
    b: Option<i64>,
    #[serde(default)]
    key: Option<String>,
}
#[derive(serde::Deserialize, Debug)]
#[allow(dead_code)]
#[serde(untagged)]
enum Un {
    N(u64),
    F(f64),
    B(bool),
    S(String),
    V(Vec<Un>),
    M(BTreeMap<String, Un>),
}
#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct Held {
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    v: Vec<En>,
    #[serde(with = "serde_yaml::with::singleton_map")]
    w: En,
}
fn en(r: &mut Rng) -> En {
    let v = |r: &mut Rng| to_val(&gen_m(r, &GenCfg { max_depth: 2, tags: false, ..GenCfg::default() }));
    match r.below(4) {
        0 => En::A,
        1 => En::N(v(r)),
        2 => En::T(r.below(256) as u8, gen_string(r)),
        _ => En::S { k: if r.bool() { Some(v(r)) } else { None } },
    }
}

fn read_as<T: DeserializeOwned + Debug>(out: &mut String, b: &[u8]) {
    res(out, serde_yaml::from_slice::<T>(b))
}
fn read(out: &mut String, kind: usize, b: &[u8]) {
    match kind {
        0 => read_as::<Value>(out, b),
        1 => read_as::<AnyM>(out, b),
        2 => read_as::<String>(out, b),
        3 => read_as::<Vec<Value>>(out, b),
        4 => read_as::<BTreeMap<String, Value>>(out, b),
        5 => read_as::<Option<i32>>(out, b),
        6 => read_as::<Mapping>(out, b),
        7 => read_as::<En>(out, b),
        8 => read_as::<St>(out, b),
        9 => read_as::<()>(out, b),
        10 => read_as::<f64>(out, b),
        11 => read_as::<Un>(out, b),
        12 => read_as::<IgnoredAny>(out, b),
        13 => read_as::<Held>(out, b),
        14 => read_as::<Number>(out, b),
        15 => read_as::<TaggedValue>(out, b),
        _ => read_as::<Vec<Vec<String>>>(out, b),
    }
}

struct Bits<'a>(&'a [u8], usize);
impl Read for Bits<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct Upto(Vec<u8>, usize);
impl Write for Upto {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Displayed in pieces, the first of which may look like a tag.
struct Pieces(Vec<String>);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in &self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}
struct Shown(Vec<(Pieces, u8)>, bool);
impl Serialize for Shown {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        struct K<'a>(&'a Pieces);
        impl Serialize for K<'_> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_str(self.0)
            }
        }
        let mut m = s.serialize_map(if self.1 { Some(self.0.len()) } else { None })?;
        for (k, v) in &self.0 {
            m.serialize_entry(&K(k), v)?;
        }
        m.end()
    }
}

/// The outcome of one call or a small group of calls, in full.
pub fn outcome(seed: u64) -> String {
    let mut out = String::new();
    let o = &mut out;
    if let Err(p) = guarded(|| perform(&mut Rng::new(seed), o)) {
        let _ = write!(out, "P[{p}]");
    }
    out
}
fn perform(r: &mut Rng, o: &mut String) {
    let cfg = GenCfg { max_depth: 3, nested_tags: r.chance(1, 4), ..GenCfg::default() };
    match r.below(14) {
        0 | 1 => {
            let b = texts::bytes(r);
            read(o, r.below(17), &b);
        }
        2 => {
            let b = texts::valid_doc(r);
            read(o, r.below(2), b.as_bytes());
        }
        3 => {
            let n = r.range(1, 4);
            let s = (0..n).map(|_| texts::text(r)).collect::<Vec<_>>().join(*r.pick(&["\n---\n", "\n...\n---\n", "\n"]));
            for d in Deserializer::from_str(&s).take(8) {
                match r.below(4) {
                    0 => res(o, AnyM::deserialize(d)),
                    1 => res(o, Vec::<Value>::deserialize(d)),
                    _ => res(o, Value::deserialize(d)),
                }
            }
        }
        4 => text(o, serde_yaml::to_string(&to_val(&gen_m(r, &cfg)))),
        5 => {
            let tc = TyCfg { single: r.chance(1, 3), bytes: r.chance(1, 8), ..TyCfg::default() };
            let ty = gen_ty(r, &tc, 3);
            let mut fuel = r.range(3, 25);
            let tv = gen_tv(r, &ty, &tc, &mut fuel);
            let mode = r.below(32) as u8;
            let v = dynv(&ty, &tv, mode);
            match serde_yaml::to_string(&v) {
                Ok(t) => {
                    let back = as_type(&ty, || serde_yaml::from_str::<Root>(&t));
                    text(o, Ok(t));
                    res(o, back);
                }
                Err(e) => err(o, &e),
            }
            match serde_yaml::to_value(&v) {
                Ok(t) => {
                    let _ = write!(o, "{t:?}");
                    res(o, as_type(&ty, || serde_yaml::from_value::<Root>(t)));
                }
                Err(e) => err(o, &e),
            }
        }
        6 => {
            let n = r.range(0, 4);
            let limit = if r.bool() { usize::MAX >> 1 } else { r.below(60) };
            let mut s = Serializer::new(Upto(vec![], limit));
            for _ in 0..n {
                if let Err(e) = to_val(&gen_m(r, &cfg)).serialize(&mut s) {
                    err(o, &e);
                }
            }
            match s.into_inner() {
                Ok(w) => {
                    let _ = write!(o, "W[{:?}]", String::from_utf8_lossy(&w.0));
                }
                Err(e) => err(o, &e),
            }
        }
        7 => {
            let h = Held { v: (0..r.below(4)).map(|_| en(r)).collect(), w: en(r) };
            match serde_yaml::to_string(&h) {
                Ok(t) => {
                    res(o, serde_yaml::from_str::<Held>(&t));
                    text(o, Ok(t));
                }
                Err(e) => err(o, &e),
            }
        }
        8 => {
            let mut v = to_val(&gen_m(r, &GenCfg { merge_keys: true, ..cfg }));
            res(o, v.apply_merge());
            let _ = write!(o, "{v:?}");
        }
        9 => {
            // around the limits
            let n = r.range(120, 135);
            let (a, z) = *r.pick(&[("[", "]"), ("{a: ", "}"), ("- ", ""), ("[{k: ", "}]"), ("!t [", "]")]);
            let n = if a.contains("[{") { n / 2 } else { n };
            let t = format!("{}x{}", a.repeat(n), z.repeat(n));
            read(o, r.below(2), t.as_bytes());
            let k = r.range(90, 115);
            let t = format!("a: &a [{}]\nb: [{}]\n", vec!["x"; 10].join(","), vec!["*a "; k].join(","));
            match serde_yaml::from_str::<Value>(&t) {
                Ok(v) => {
                    let _ = write!(o, "{}", v["b"].as_sequence().map_or(0, |s| s.len()));
                }
                Err(e) => err(o, &e),
            }
            let t = format!("a: &a [{}]\nb: &b [{}]\nc: [{}]\n", vec!["x"; 9].join(","), vec!["*a "; 9].join(","), vec!["*b "; r.range(1, 12)].join(","));
            read(o, r.below(2), t.as_bytes());
        }
        10 => {
            let b = texts::bytes(r);
            res(o, serde_yaml::from_reader::<_, Value>(Bits(&b, r.range(1, 40))));
        }
        11 => {
            let n = r.range(1, 3);
            let s = Shown(
                (0..n)
                    .map(|i| {
                        let k = r.range(1, 3);
                        let mut p: Vec<String> = (0..k).map(|_| r.pick(&["!", "x", "!!", "", "a b", "!t", "~", "1"]).to_string()).collect();
                        // exactly two pieces of which the first is '!' announce a tag
                        p.push(i.to_string());
                        (Pieces(p), r.below(200) as u8)
                    })
                    .collect(),
                r.bool(),
            );
            text(o, serde_yaml::to_string(&s));
            res(o, serde_yaml::to_value(&s));
            let mut m: BTreeMap<String, u8> = BTreeMap::new();
            for _ in 0..r.range(0, 2) {
                m.insert(r.pick(&["!", "!t", "!!a", "", "x"]).to_string(), r.below(9) as u8);
            }
            text(o, serde_yaml::to_string(&m));
            text(o, serde_yaml::to_string(&[m]));
        }
        12 => {
            let (a, b) = (to_val(&gen_m(r, &cfg)), to_val(&gen_m(r, &cfg)));
            let _ = write!(o, "{} {:?} {:x} {:x}", a == b, a.partial_cmp(&b), hash_of(&a), hash_of(&b));
            let mut m = Mapping::new();
            for _ in 0..r.range(1, 12) {
                let k = to_val(&gen_scalar(r));
                match r.below(3) {
                    0 => {
                        let _ = write!(o, "{:?}", m.remove(&k));
                    }
                    1 => {
                        let _ = write!(o, "{:?}", m.entry(k).or_insert(Value::Null));
                    }
                    _ => {
                        let _ = write!(o, "{:?}", m.insert(k, to_val(&gen_scalar(r))));
                    }
                }
            }
            let _ = write!(o, "{m:?}{:x}", hash_of(&m));
            let mut v = to_val(&gen_m(r, &cfg));
            let k = gen_string(r);
            v["k"] = Value::from(k.as_str());
            let _ = write!(o, "{v:?} {:?}", v[k.as_str()]);
        }
        _ => {
            let t = gen_number_text(r);
            match t.parse::<Number>() {
                Ok(n) => {
                    let _ = write!(o, "{n} {n:?} {:?}", n.as_f64());
                }
                Err(e) => err(o, &e),
            }
            read(o, r.below(17), t.as_bytes());
            text(o, serde_yaml::to_string(&t));
            let v = to_val(&gen_m(r, &cfg));
            res(o, En::deserialize(&v));
            res(o, St::deserialize(&v));
            res(o, serde_yaml::from_value::<Un>(v));
        }
    }
}

/// In a process of its own: `--op SEED` prints the outcome.
pub fn main_op(seed: u64) {
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || outcome(seed)).unwrap();
    let o = t.join().unwrap_or_else(|_| "died".to_string());
    let _ = io::stdout().write_all(o.as_bytes());
}

/// What the call does when it is the only one of its process.
fn alone(c: &mut Case, seed: u64) -> Result<u64, Fail> {
    static SEEN: OnceLock<Mutex<HashMap<u64, u64>>> = OnceLock::new();
    let seen = SEEN.get_or_init(Default::default);
    if let Some(&h) = seen.lock().unwrap().get(&seed) {
        return Ok(h);
    }
    let h = hash_of(&fresh(seed)?);
    c.ev("calls observed alone in a fresh process");
    seen.lock().unwrap().insert(seed, h);
    Ok(h)
}
fn fresh(seed: u64) -> Result<String, Fail> {
    let exe = std::env::current_exe().map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let mut cmd = Command::new(exe);
    cmd.args(["--op", &seed.to_string()]).env_clear().current_dir("/").stdin(Stdio::null()).stderr(Stdio::null());
    for (k, v) in std::env::vars_os() {
        // the generators read their dictionaries from there
        if matches!(k.to_str(), Some("REPO_SRC" | "VERIF_DIR" | "LD_LIBRARY_PATH")) {
            cmd.env(k, v);
        }
    }
    cmd.env("LC_ALL", *[&"C", &"tr_TR.UTF-8", &"de_DE.ISO-8859-1"][(seed % 3) as usize]).env("TZ", "Asia/Tokyo");
    if seed & 8 == 0 {
        cmd.env("RUST_BACKTRACE", "1");
    }
    let o = cmd.output().map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    ensure!(o.status.success(), "died", "a call made alone in a fresh process ended it: {}", o.status);
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}
/// Is this what the call does alone?
fn same(c: &mut Case, seed: u64, got: &str, when: &str) -> R {
    let want = alone(c, seed)?;
    if hash_of(got) != want {
        let w = fresh(seed)?;
        let at = w.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(w.len().min(got.len()));
        let cut = |s: &str| {
            let mut a = at.saturating_sub(60);
            while !s.is_char_boundary(a) {
                a -= 1;
            }
            s[a..].chars().take(300).collect::<String>()
        };
        return fail("differs", format!("call {seed:#x} {when} differs from the same call alone at byte {at}:\n  alone: ..{}\n  here:  ..{}", cut(&w), cut(got)));
    }
    Ok(())
}

// ---- disturbances --------------------------------------------------------

thread_local!(static BOOM: Cell<i64> = Cell::new(i64::MAX));
fn tick() {
    BOOM.with(|b| {
        b.set(b.get() - 1);
        if b.get() == 0 {
            std::panic::panic_any("a callback panics".to_string());
        }
    })
}
/// Panics or fails when the countdown ends, at any depth and in any role.
struct Mine<'a>(&'a M, u8);
impl Serialize for Mine<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick();
        if self.1 == 1 && BOOM.with(|b| b.get()) < 3 {
            return Err(ser::Error::custom("a serialize fails"));
        }
        match self.0 {
            M::Null => s.serialize_unit(),
            M::Bool(b) => s.serialize_bool(*b),
            M::Int(i) => s.serialize_i128(*i),
            M::F(f) => s.serialize_f64(*f),
            M::S(t) => {
                struct D<'a>(&'a str);
                impl fmt::Display for D<'_> {
                    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        for (i, c) in self.0.chars().enumerate() {
                            if i == 1 {
                                tick();
                            }
                            f.write_char(c)?;
                        }
                        Ok(())
                    }
                }
                s.collect_str(&D(t))
            }
            M::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&Mine(x, self.1))?;
                    if self.1 == 2 && BOOM.with(|b| b.get()) < 2 {
                        // abandoned: the sequence is never ended
                        return Err(ser::Error::custom("abandoned"));
                    }
                }
                q.end()
            }
            M::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_key(&Mine(k, self.1))?;
                    tick();
                    if self.1 == 2 && BOOM.with(|b| b.get()) < 2 {
                        return Err(ser::Error::custom("abandoned"));
                    }
                    q.serialize_value(&Mine(x, self.1))?;
                }
                q.end()
            }
            M::Tag(_, x) => match x.as_ref() {
                M::Seq(v) if !v.is_empty() => {
                    let mut q = s.serialize_tuple_variant("E", 0, "Variant", v.len())?;
                    for x in v {
                        q.serialize_field(&Mine(x, self.1))?;
                    }
                    q.end()
                }
                M::Map(v) if !v.is_empty() => {
                    let mut q = s.serialize_struct_variant("E", 0, "Variant", v.len())?;
                    for (_, x) in v {
                        q.serialize_field("field", &Mine(x, self.1))?;
                    }
                    q.end()
                }
                x => s.serialize_newtype_variant("E", 0, "Variant", &Mine(x, self.1)),
            },
        }
    }
}
struct Stop;
impl<'de> Deserialize<'de> for Stop {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Stop, D::Error> {
        tick();
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Stop;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                tick();
                f.write_str("less")
            }
            fn visit_bool<E>(self, _: bool) -> Result<Stop, E> {
                Ok(Stop)
            }
            fn visit_u64<E>(self, _: u64) -> Result<Stop, E> {
                Ok(Stop)
            }
            fn visit_unit<E>(self) -> Result<Stop, E> {
                Ok(Stop)
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<Stop, E> {
                tick();
                if BOOM.with(|b| b.get()) < 4 && s.len() % 2 == 0 {
                    return Err(E::custom("a visitor fails"));
                }
                Ok(Stop)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Stop, A::Error> {
                while a.next_element::<Stop>()?.is_some() {
                    if BOOM.with(|b| b.get()) < 2 {
                        return Ok(Stop);
                    }
                }
                Ok(Stop)
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Stop, A::Error> {
                while a.next_key::<Stop>()?.is_some() {
                    if BOOM.with(|b| b.get()) < 2 {
                        return Ok(Stop);
                    }
                    a.next_value::<Stop>()?;
                }
                Ok(Stop)
            }
            fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Stop, A::Error> {
                let (Stop, v) = a.variant()?;
                tick();
                de::VariantAccess::newtype_variant(v)
            }
        }
        d.deserialize_any(V)
    }
}
struct Trip<T>(T);
impl<T: Read> Read for Trip<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        tick();
        let n = b.len().min(9);
        self.0.read(&mut b[..n])
    }
}
impl<T: Write> Write for Trip<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        Ok(())
    }
}

/// Calls that end badly: abandoned, failing or unwinding at a random moment.
fn disturb(c: &mut Case) {
    let r = &mut c.rng;
    let at = match r.below(3) {
        0 => r.range(1, 6),
        _ => r.range(1, 40),
    } as i64;
    let cfg = GenCfg { max_depth: 4, nested_tags: true, ..GenCfg::default() };
    let how = r.below(9);
    let role = r.below(3) as u8;
    let m = gen_m(r, &cfg);
    let doc = texts::text(r);
    let bytes = texts::bytes(r);
    BOOM.with(|b| b.set(at));
    let done = guarded(|| match how {
        0 => serde_yaml::to_string(&Mine(&m, role)).is_ok(),
        1 => serde_yaml::to_value(Mine(&m, role)).is_ok(),
        2 => serde_yaml::to_writer(Trip(Upto(vec![], 4 * at as usize)), &Mine(&m, role)).is_ok(),
        3 => {
            let mut s = Serializer::new(Trip(vec![]));
            let a = Mine(&m, role).serialize(&mut s).is_ok();
            // dropped without into_inner
            a && Mine(&m, 0).serialize(&mut s).is_ok()
        }
        4 => serde_yaml::from_str::<Stop>(&doc).is_ok(),
        5 => serde_yaml::from_reader::<_, Stop>(Trip(&bytes[..])).is_ok(),
        6 => {
            let mut ok = true;
            for d in Deserializer::from_str(&doc).take(3) {
                ok &= Stop::deserialize(d).is_ok();
                if at % 2 == 0 {
                    break;
                }
            }
            ok
        }
        7 => Stop::deserialize(&to_val(&m)).is_ok() && serde_yaml::from_value::<Stop>(to_val(&m)).is_ok(),
        _ => serde_yaml::with::singleton_map_recursive::serialize(&Mine(&m, role), &mut Serializer::new(vec![])).is_ok(),
    });
    let left = BOOM.with(|b| b.replace(i64::MAX));
    let _ = left;
    c.ev(match done {
        Ok(true) => "calls between that completed",
        Ok(false) => "calls between that failed or were abandoned",
        Err(_) => "calls between that unwound",
    });
}

// ---- the workloads -------------------------------------------------------

fn history(c: &mut Case) -> R {
    let th = c.thorough;
    let n = c.rng.range(1, 6);
    let mut said = vec![];
    for _ in 0..n {
        for _ in 0..c.rng.below(4) {
            disturb(c);
        }
        let s = some_op(&mut c.rng, th);
        let o = outcome(s);
        same(c, s, &o, "after a history of other calls on the same thread")?;
        c.ev("calls compared after a history");
        said.push(s);
    }
    // once more, in the other order
    for &s in said.iter().rev() {
        let o = outcome(s);
        same(c, s, &o, "repeated on the same thread")?;
        c.ev("calls repeated");
    }
    c.nontrivial(&said);
    Ok(())
}

thread_local! {
    static INNER: Cell<Option<u64>> = Cell::new(None);
    static HEARD: std::cell::RefCell<Vec<(u64, String)>> = Default::default();
}
/// Make the inner call, once in a while.
fn hook() {
    if let Some(s) = INNER.with(|i| i.get()) {
        INNER.with(|i| i.set(None));
        let o = outcome(s);
        HEARD.with(|h| h.borrow_mut().push((s, o)));
        if HEARD.with(|h| h.borrow().len()) < 3 {
            INNER.with(|i| i.set(Some(s)));
        }
    }
}
struct Hooked<T>(T);
impl<T: Serialize> Serialize for Hooked<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        hook();
        let r = self.0.serialize(s);
        hook();
        r
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Hooked<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        hook();
        let v = T::deserialize(d)?;
        hook();
        Ok(Hooked(v))
    }
}
impl<T: Debug> Debug for Hooked<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: PartialEq> PartialEq for Hooked<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq> Eq for Hooked<T> {}
impl<T: Ord> PartialOrd for Hooked<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.0.cmp(&o.0))
    }
}
impl<T: Ord> Ord for Hooked<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T: fmt::Display> fmt::Display for Hooked<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        hook();
        fmt::Display::fmt(&self.0, f)?;
        hook();
        Ok(())
    }
}
impl<T: Read> Read for Hooked<T> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        hook();
        self.0.read(b)
    }
}
impl<T: Write> Write for Hooked<T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        hook();
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        hook();
        self.0.flush()
    }
}
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq)]
enum HEn {
    New(Hooked<Value>),
    Tup(Hooked<String>, Hooked<Option<i64>>),
    Rec { k: Hooked<Vec<Hooked<Value>>>, z: Hooked<bool> },
    Unit,
}
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq)]
struct HSt {
    a: Hooked<Vec<Hooked<HEn>>>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    b: Vec<HEn>,
    m: BTreeMap<Hooked<String>, Hooked<Value>>,
}
fn hen(r: &mut Rng) -> HEn {
    let v = |r: &mut Rng| Hooked(to_val(&gen_m(r, &GenCfg { max_depth: 2, tags: false, ..GenCfg::default() })));
    match r.below(4) {
        0 => HEn::New(v(r)),
        1 => HEn::Tup(Hooked(gen_string(r)), Hooked(if r.bool() { Some(r.below(99) as i64) } else { None })),
        2 => HEn::Rec { k: Hooked((0..r.below(3)).map(|_| v(r)).collect()), z: Hooked(r.bool()) },
        _ => HEn::Unit,
    }
}
/// A call with hooks in all its callbacks, which do nothing unless INNER is set.
fn outer(seed: u64) -> String {
    let r = &mut Rng::new(seed);
    let mut out = String::new();
    let o = &mut out;
    match r.below(7) {
        0 | 1 => {
            let v = HSt { a: Hooked((0..r.below(4)).map(|_| Hooked(hen(r))).collect()), b: (0..r.below(3)).map(|_| hen(r)).collect(), m: (0..r.below(3)).map(|_| (Hooked(gen_string(r)), Hooked(to_val(&gen_scalar(r))))).collect() };
            match serde_yaml::to_string(&v) {
                Ok(t) => {
                    res(o, serde_yaml::from_str::<HSt>(&t));
                    res(o, serde_yaml::from_reader::<_, HSt>(Hooked(t.as_bytes())));
                    text(o, Ok(t));
                }
                Err(e) => err(o, &e),
            }
            match serde_yaml::to_value(&v) {
                Ok(t) => res(o, serde_yaml::from_value::<HSt>(t)),
                Err(e) => err(o, &e),
            }
        }
        2 => {
            let mut s = Serializer::new(Hooked(vec![]));
            for _ in 0..r.range(1, 3) {
                if let Err(e) = hen(r).serialize(&mut s) {
                    err(o, &e);
                }
            }
            match s.into_inner() {
                Ok(w) => {
                    let _ = write!(o, "{:?}", String::from_utf8_lossy(&w.0));
                }
                Err(e) => err(o, &e),
            }
        }
        3 => {
            struct K<'a>(&'a str);
            impl Serialize for K<'_> {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.collect_str(&Hooked(Hooked(self.0)))
                }
            }
            let keys: Vec<String> = (0..r.range(1, 3)).map(|i| format!("{}{i}", r.pick(&["!", "!t", "", "x y", "1"]))).collect();
            struct Ks<'a>(&'a [String]);
            impl Serialize for Ks<'_> {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.collect_map(self.0.iter().map(|k| (K(k), Hooked(K(k)))))
                }
            }
            text(o, serde_yaml::to_string(&Ks(&keys)));
            text(o, serde_yaml::to_string(&Hooked(vec![Hooked(Ks(&keys))])));
            let tv = TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: Value::Null };
            text(o, serde_yaml::to_string(&Hooked(tv)));
        }
        4 => {
            let t = texts::text(r);
            for d in Deserializer::from_reader(Hooked(t.as_bytes())).take(4) {
                res(o, Vec::<Hooked<Value>>::deserialize(d));
            }
        }
        5 => {
            let t = texts::valid_doc(r);
            res(o, serde_yaml::from_str::<BTreeMap<Hooked<String>, Hooked<Value>>>(&t));
            res(o, serde_yaml::from_str::<Vec<Hooked<Un>>>(&t));
        }
        _ => {
            let n = r.range(50, 70);
            let t = format!("{}x{}", "[".repeat(n), "]".repeat(n));
            res(o, serde_yaml::from_str::<Vec<Vec<Hooked<Value>>>>(&t));
            let t = format!("a: &a [{}]\nb: [{}]\n", vec!["x"; 10].join(","), vec!["*a "; r.range(85, 105)].join(","));
            match serde_yaml::from_str::<BTreeMap<String, Hooked<Vec<Hooked<Value>>>>>(&t) {
                Ok(v) => {
                    let _ = write!(o, "{}", v.values().map(|x| x.0.len()).sum::<usize>());
                }
                Err(e) => err(o, &e),
            }
        }
    }
    out
}

fn callbacks(c: &mut Case) -> R {
    let seed = c.rng.next();
    let inner = some_op(&mut c.rng, c.thorough);
    INNER.with(|i| i.set(None));
    let quiet = guarded(|| outer(seed)).unwrap_or_else(|p| format!("P[{p}]"));
    INNER.with(|i| i.set(Some(inner)));
    HEARD.with(|h| h.borrow_mut().clear());
    let busy = guarded(|| outer(seed)).unwrap_or_else(|p| format!("P[{p}]"));
    INNER.with(|i| i.set(None));
    let heard = HEARD.with(|h| h.take());
    for (s, o) in &heard {
        same(c, *s, o, "made inside a callback of another call")?;
        c.ev("calls compared inside callbacks");
    }
    if !heard.is_empty() {
        c.nontrivial(&(seed, inner));
    }
    ensure!(quiet == busy, "outer", "a call whose callbacks use the library has another outcome (inner call {inner:#x})\n  without: {}\n  with:    {}", quiet.chars().take(1500).collect::<String>(), busy.chars().take(1500).collect::<String>());
    c.ev("calls compared around callbacks");
    Ok(())
}

fn threads(c: &mut Case) -> R {
    if c.solo {
        return Ok(());
    }
    let th = c.thorough;
    let n = 4;
    let ops: Vec<u64> = (0..c.rng.range(2, 10)).map(|_| some_op(&mut c.rng, th)).collect();
    c.nontrivial(&ops);
    let gate = Barrier::new(n);
    let (ops, gate) = (&ops, &gate);
    let outs: Vec<Vec<(u64, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut v = vec![];
                        for round in 0..ops.len() {
                            // the same call everywhere at once, then different ones
                            let s = ops[if round % 2 == 0 { round } else { (round + t) % ops.len() }];
                            gate.wait();
                            v.push((s, outcome(s)));
                        }
                        v
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for v in &outs {
        ensure!(v.len() == ops.len(), "thread", "a thread making calls died");
        for (s, o) in v {
            same(c, *s, o, "made while other threads make calls")?;
            c.ev("calls compared among threads");
        }
    }
    Ok(())
}
