//! Independent model of YAML values, and generators.
use crate::dict::{dict, HOSTILE};
use crate::fw::Rng;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum M {
    Null,
    Bool(bool),
    Int(i128),
    F(f64),
    S(String),
    Seq(Vec<M>),
    Map(Vec<(M, M)>),
    Tag(String, Box<M>),
}

impl M {
    pub fn s(s: &str) -> M {
        M::S(s.to_string())
    }
    /// Strict identity: order, float bits (all NaNs alike), tags.
    pub fn same(&self, o: &M) -> bool {
        match (self, o) {
            (M::Null, M::Null) => true,
            (M::Bool(a), M::Bool(b)) => a == b,
            (M::Int(a), M::Int(b)) => a == b,
            (M::F(a), M::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (M::S(a), M::S(b)) => a == b,
            (M::Seq(a), M::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (M::Map(a), M::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k.same(l) && v.same(w)),
            (M::Tag(t, a), M::Tag(u, b)) => t == u && a.same(b),
            _ => false,
        }
    }
    /// `same`, except that floats only need to agree as 32-bit floats.
    pub fn same32(&self, o: &M) -> bool {
        match (self, o) {
            (M::F(a), M::F(b)) => (*a as f32).to_bits() == (*b as f32).to_bits() || (a.is_nan() && b.is_nan()),
            (M::Seq(a), M::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same32(y)),
            (M::Map(a), M::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k.same32(l) && v.same32(w)),
            (M::Tag(t, a), M::Tag(u, b)) => t == u && a.same32(b),
            _ => self.same(o),
        }
    }
    /// Canonical text such that two values are semantically equal iff equal
    /// canonical text (maps unordered, 0.0 == -0.0, NaN == NaN).
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, o: &mut String) {
        match self {
            M::Null => o.push('N'),
            M::Bool(b) => o.push_str(if *b { "T" } else { "F" }),
            M::Int(i) => {
                let _ = write!(o, "i{i};");
            }
            M::F(f) => {
                let f = if f.is_nan() { f64::NAN } else if *f == 0.0 { 0.0 } else { *f };
                let _ = write!(o, "f{:x};", if f.is_nan() { 1u64 << 63 | 0x7ff8 << 48 } else { f.to_bits() });
            }
            M::S(s) => {
                let _ = write!(o, "s{}:{s}", s.len());
            }
            M::Seq(v) => {
                o.push('[');
                for x in v {
                    x.canon_into(o);
                }
                o.push(']');
            }
            M::Map(v) => {
                let mut e: Vec<String> = v
                    .iter()
                    .map(|(k, v)| {
                        let mut s = k.canon();
                        s.push('=');
                        v.canon_into(&mut s);
                        s
                    })
                    .collect();
                e.sort();
                o.push('{');
                for x in e {
                    o.push_str(&x);
                    o.push(',');
                }
                o.push('}');
            }
            M::Tag(t, v) => {
                let _ = write!(o, "!{}:{t}", t.len());
                v.canon_into(o);
            }
        }
    }
    pub fn has_nested_tag(&self) -> bool {
        match self {
            M::Seq(v) => v.iter().any(|x| x.has_nested_tag()),
            M::Map(v) => v.iter().any(|(k, v)| k.has_nested_tag() || v.has_nested_tag()),
            M::Tag(_, v) => matches!(**v, M::Tag(..)) || v.has_nested_tag(),
            _ => false,
        }
    }
    pub fn has_tag(&self) -> bool {
        match self {
            M::Seq(v) => v.iter().any(|x| x.has_tag()),
            M::Map(v) => v.iter().any(|(k, v)| k.has_tag() || v.has_tag()),
            M::Tag(..) => true,
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            M::Seq(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            M::Map(v) => 1 + v.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            M::Tag(_, v) => v.depth(),
            _ => 0,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            M::Seq(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            M::Map(v) => 1 + v.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
            M::Tag(_, v) => 1 + v.size(),
            _ => 1,
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self, M::Seq(_) | M::Map(_))
    }
}

/// Build the crate's value through public constructors.
pub fn to_val(m: &M) -> Value {
    match m {
        M::Null => Value::Null,
        M::Bool(b) => Value::Bool(*b),
        M::Int(i) => Value::Number(int_number(*i)),
        M::F(f) => Value::Number(Number::from(*f)),
        M::S(s) => Value::String(s.clone()),
        M::Seq(v) => Value::Sequence(v.iter().map(to_val).collect()),
        M::Map(v) => {
            let mut map = Mapping::new();
            for (k, v) in v {
                map.insert(to_val(k), to_val(v));
            }
            Value::Mapping(map)
        }
        M::Tag(t, v) => Value::Tagged(Box::new(TaggedValue { tag: Tag::new(t.clone()), value: to_val(v) })),
    }
}
pub fn int_number(i: i128) -> Number {
    if i >= 0 {
        Number::from(i as u64)
    } else {
        Number::from(i as i64)
    }
}
/// Observe the crate's value into the model.
pub fn from_val(v: &Value) -> M {
    match v {
        Value::Null => M::Null,
        Value::Bool(b) => M::Bool(*b),
        Value::Number(n) => num_model(n),
        Value::String(s) => M::S(s.clone()),
        Value::Sequence(v) => M::Seq(v.iter().map(from_val).collect()),
        Value::Mapping(m) => M::Map(m.iter().map(|(k, v)| (from_val(k), from_val(v))).collect()),
        Value::Tagged(t) => {
            let s = t.tag.to_string();
            M::Tag(s.strip_prefix('!').unwrap_or(&s).to_string(), Box::new(from_val(&t.value)))
        }
    }
}
pub fn num_model(n: &Number) -> M {
    if n.is_u64() {
        M::Int(n.as_u64().unwrap() as i128)
    } else if n.is_i64() {
        M::Int(n.as_i64().unwrap() as i128)
    } else {
        M::F(n.as_f64().unwrap())
    }
}

/// Human-readable difference between two models.
pub fn diff(a: &M, b: &M) -> String {
    fn go(a: &M, b: &M, path: &mut String) -> Option<String> {
        if a.same(b) {
            return None;
        }
        match (a, b) {
            (M::Seq(x), M::Seq(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    let _ = write!(path, "[{i}]");
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                }
                None
            }
            (M::Map(x), M::Map(y)) if x.len() == y.len() => {
                for (i, ((k, v), (l, w))) in x.iter().zip(y).enumerate() {
                    let n = path.len();
                    let _ = write!(path, "{{key {i}}}");
                    if let Some(d) = go(k, l, path) {
                        return Some(d);
                    }
                    path.truncate(n);
                    let _ = write!(path, "{{value {i}}}");
                    if let Some(d) = go(v, w, path) {
                        return Some(d);
                    }
                    path.truncate(n);
                }
                None
            }
            (M::Tag(t, x), M::Tag(u, y)) if t == u => go(x, y, path),
            _ => Some(format!("at {path}: {a:?} vs {b:?}")),
        }
    }
    go(a, b, &mut String::new()).unwrap_or_else(|| "identical".into())
}

// ---------------------------------------------------------------- generators

const LENS: &[usize] = &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 100, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025];
const BIG_LENS: &[usize] = &[2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 49152, 65535, 65536, 65537];

/// A length: mostly small, sometimes at a boundary (powers of two, buffer
/// sizes, or next to an integer literal of the code under test).
pub fn gen_len(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(100) {
        0..=69 => r.below(12),
        70..=84 => r.below(60),
        85..=92 => *r.pick(LENS),
        93..=95 => {
            let d = dict();
            if d.ints.is_empty() {
                5
            } else {
                let v = *r.pick(&d.ints);
                let v = if v > 1 << 20 { 20 } else { v as usize };
                (v + r.below(3)).saturating_sub(1)
            }
        }
        96..=97 if max > 2000 => *r.pick(BIG_LENS),
        _ => r.below(300),
    };
    n.min(max)
}

pub fn gen_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(20) {
            0..=6 => r.range(0x20, 0x7e) as u32,
            7 => *r.pick(&['\n', '\r', '\t', ' ', '\'', '"', ':', '#', '-', '?', '!', '&', '*', '|', '>', '%', '@', '`', ',', '[', ']', '{', '}', '\\', '~', '<', '=', '.', '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}']) as u32,
            8 => r.below(0x20) as u32,
            9 => r.range(0x7f, 0xa0) as u32,
            10 | 11 => r.range(0xa1, 0x24f) as u32,
            12 | 13 => r.range(0x250, 0xfff) as u32,
            14 => r.range(0x2000, 0x206f) as u32,
            15 | 16 => r.range(0x3000, 0xd7ff) as u32,
            17 => r.range(0xe000, 0xffff) as u32,
            18 => r.range(0x1f300, 0x1faff) as u32,
            _ => r.range(0x10000, 0x10ffff) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub fn gen_number_text(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 | 1 => {
            s.push_str(*r.pick(&["", "", "-", "+", "--", "+-"]));
            s.push_str(*r.pick(&["", "", "", "0x", "0o", "0b", "0", "00"]));
            let n = r.range(0, 24);
            let digits = *r.pick(&["01", "01234567", "0123456789", "0123456789abcdefABCDEF", "0123456789_.eE+-"]);
            let d: Vec<char> = digits.chars().collect();
            for _ in 0..n {
                s.push(*r.pick(&d));
            }
        }
        2 => {
            // boundary +- delta in a radix
            let base: i128 = match r.below(8) {
                0 => 1i128 << r.below(127),
                1 => u64::MAX as i128,
                2 => i64::MAX as i128,
                3 => i128::MAX - 3,
                4 => 10i128.pow(r.below(38) as u32),
                5 => dict_int(r) as i128 & i128::MAX,
                6 => u32::MAX as i128,
                _ => 255,
            };
            let v = base.saturating_add(r.below(5) as i128 - 2);
            s.push_str(*r.pick(&["", "-", "+"]));
            let v = v.unsigned_abs();
            match r.below(5) {
                0 => {
                    let _ = write!(s, "{v:#x}");
                }
                1 => {
                    let _ = write!(s, "{v:#o}");
                }
                2 => {
                    let _ = write!(s, "{v:#b}");
                }
                _ => {
                    let _ = write!(s, "{v}");
                }
            }
        }
        3 | 4 => {
            let f = gen_f64(r);
            if r.bool() {
                let _ = write!(s, "{f}");
            } else {
                let _ = write!(s, "{f:e}");
            }
            if s.len() > 60 {
                s.truncate(60);
            }
        }
        5 => {
            s = (*r.pick(HOSTILE)).to_string();
        }
        _ => {
            s.push_str(*r.pick(&["", "-", "+"]));
            for _ in 0..r.range(0, 5) {
                s.push(r.range(b'0' as usize, b'9' as usize) as u8 as char);
            }
            if r.bool() {
                s.push('.');
            }
            for _ in 0..r.range(0, 5) {
                s.push(r.range(b'0' as usize, b'9' as usize) as u8 as char);
            }
            if r.chance(1, 3) {
                s.push_str(*r.pick(&["e", "E"]));
                s.push_str(*r.pick(&["", "-", "+"]));
                for _ in 0..r.range(0, 3) {
                    s.push(r.range(b'0' as usize, b'9' as usize) as u8 as char);
                }
            }
        }
    }
    s
}

pub fn dict_int(r: &mut Rng) -> u128 {
    let d = dict();
    if d.ints.is_empty() {
        7
    } else {
        *r.pick(&d.ints)
    }
}
pub fn dict_str(r: &mut Rng) -> String {
    let d = dict();
    if d.strings.is_empty() || r.bool() {
        (*r.pick(HOSTILE)).to_string()
    } else {
        r.pick(&d.strings).clone()
    }
}

/// Any Unicode string.
pub fn gen_string(r: &mut Rng) -> String {
    match r.below(24) {
        0..=4 => dict_str(r),
        5..=7 => gen_number_text(r),
        8..=10 => {
            let n = gen_len(r, 40);
            (0..n).map(|_| *r.pick(&['a', 'b', 'z', '0', '1', '-', '_', 'é', 'Q'])).collect()
        }
        11 | 12 => {
            let n = r.range(1, 8);
            (0..n).map(|_| gen_char(r)).collect()
        }
        13 | 14 => {
            // whitespace and break heavy
            let n = r.range(1, 10);
            (0..n).map(|_| *r.pick(&[' ', ' ', '\n', '\n', '\t', 'a', 'b', '#', '-', ':', '\r', '\u{85}', '\u{2028}', 'é', '.'])).collect()
        }
        15 | 16 => {
            // indicator heavy
            let n = r.range(1, 7);
            (0..n).map(|_| *r.pick(&['-', '?', ':', ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`', ' ', 'a', '1', '.', '~', '=', '<'])).collect()
        }
        17 => {
            // mutated dictionary entry
            let mut s: Vec<char> = dict_str(r).chars().collect();
            for _ in 0..r.range(1, 2) {
                let i = r.below(s.len() + 1);
                match r.below(3) {
                    0 => s.insert(i, gen_char(r)),
                    1 if i < s.len() => {
                        s.remove(i);
                    }
                    _ if i < s.len() => s[i] = gen_char(r),
                    _ => s.push(' '),
                }
            }
            s.into_iter().collect()
        }
        18 => format!("{}{}", dict_str(r), dict_str(r)),
        19 => format!("{}{}{}", dict_str(r), *r.pick(&["\n", " ", "\n\n", ": ", " #", "\t", "\r\n"]), dict_str(r)),
        20 => {
            // long text with spaces (line folding width)
            let n = gen_len(r, 400);
            let mut s = String::new();
            while s.len() < n {
                for _ in 0..r.range(1, 12) {
                    s.push(*r.pick(&['a', 'b', 'c', 'é', '-', '1']));
                }
                s.push_str(*r.pick(&[" ", " ", " ", "  ", "\n", "\t", ", ", ": "]));
            }
            s
        }
        21 => {
            // boundary length of a single char
            let n = if r.chance(1, 12) { *r.pick(BIG_LENS) } else { gen_len(r, 5000) };
            let c = *r.pick(&['a', ' ', 'é', '日', '\n', '😀', '\u{1}', '0', '"', '\\']);
            let n = if c == '\u{1}' { n.min(3000) } else { n };
            std::iter::repeat(c).take(n).collect()
        }
        22 => {
            let n = gen_len(r, 200);
            (0..n).map(|_| gen_char(r)).collect()
        }
        _ => {
            let mut s = gen_number_text(r);
            let c = gen_char(r);
            if r.bool() {
                s.push(c)
            } else {
                s.insert(0, c)
            }
            s
        }
    }
}

pub fn gen_int(r: &mut Rng) -> i128 {
    let v: i128 = match r.below(12) {
        0..=3 => r.below(20) as i128 - 5,
        4 => (1i128 << r.below(65)) + r.below(5) as i128 - 2,
        5 => -(1i128 << r.below(64)) + r.below(5) as i128 - 2,
        6 => u64::MAX as i128 - r.below(3) as i128,
        7 => i64::MIN as i128 + r.below(3) as i128,
        8 => i64::MAX as i128 + r.below(5) as i128 - 2,
        9 => (dict_int(r) & (u64::MAX as u128)) as i128 + r.below(3) as i128 - 1,
        10 => r.next() as i128,
        _ => (r.next() as i64) as i128,
    };
    v.clamp(i64::MIN as i128, u64::MAX as i128)
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::NAN,
        5 => *r.pick(&[f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, -5e-324, 1e21, 1e16, 1e17, 1e15, 123456789012345680.0, 0.1, 1.0, -1.0, 1e-5, 1e-7, 9007199254740993.0, 18446744073709551616.0, 9223372036854775808.0, -9223372036854775808.0, 1e308, 2.2250738585072011e-308]),
        6 => (r.below(2000) as f64 - 1000.0) / 8.0,
        7 => r.below(100000) as f64,
        8 => 10f64.powi(r.below(640) as i32 - 330),
        9 => f64::from_bits((r.next() & 0x800f_ffff_ffff_ffff) | 0),
        10 => gen_int(r) as f64,
        11 => f32::from_bits(r.next() as u32) as f64,
        _ => f64::from_bits(r.next()),
    }
}

const TAG_CHARS: &[char] = &['a', 'b', 'Z', '0', '9', '_', '-', '.', 'é', '日', 'x', '/', 'Ω'];
pub fn gen_tag(r: &mut Rng) -> String {
    match r.below(8) {
        0..=2 => (*r.pick(&["t", "Tag", "int", "str", "null", "bool", "float", "seq", "map", "Variant", "true", "1", "a-b_c.d", "é", "日本", "a/b", "x.y", "binary", "merge"])).to_string(),
        3 => {
            let s: String = dict_str(r).chars().filter(|c| c.is_alphanumeric() || "_-.".contains(*c)).take(12).collect();
            if s.is_empty() {
                "w".into()
            } else {
                s
            }
        }
        4 => {
            let n = gen_len(r, 300).max(1);
            (0..n).map(|_| *r.pick(TAG_CHARS)).collect()
        }
        _ => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(TAG_CHARS)).collect()
        }
    }
}

pub struct GenCfg {
    pub tags: bool,
    pub nested_tags: bool,
    pub complex_keys: bool,
    pub max_depth: usize,
    pub merge_keys: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { tags: true, nested_tags: false, complex_keys: true, max_depth: 6, merge_keys: false }
    }
}

pub fn gen_scalar(r: &mut Rng) -> M {
    match r.below(10) {
        0 => M::Null,
        1 => M::Bool(r.bool()),
        2 | 3 => M::Int(gen_int(r)),
        4 => M::F(gen_f64(r)),
        _ => M::S(gen_string(r)),
    }
}

pub fn gen_m(r: &mut Rng, cfg: &GenCfg) -> M {
    let mut fuel = match r.below(12) {
        0..=5 => r.range(1, 8),
        6..=9 => r.range(5, 30),
        10 => r.range(30, 100),
        _ => r.range(1, 300),
    };
    gen_m_at(r, cfg, cfg.max_depth, &mut fuel, false)
}

pub fn gen_m_at(r: &mut Rng, cfg: &GenCfg, depth: usize, fuel: &mut usize, under_tag: bool) -> M {
    *fuel = fuel.saturating_sub(1);
    let leaf = depth == 0 || *fuel == 0;
    let k = r.below(20);
    if cfg.tags && (!under_tag || cfg.nested_tags) && k < 3 {
        let t = gen_tag(r);
        return M::Tag(t, Box::new(gen_m_at(r, cfg, depth, fuel, true)));
    }
    if leaf || k < 9 {
        return gen_scalar(r);
    }
    // number of children: bias to 0, 1, 2; sometimes wide
    let n = match r.below(12) {
        0 => 0,
        1..=4 => 1,
        5..=7 => 2,
        8..=10 => r.range(2, 6),
        _ => gen_len(r, 40),
    }
    .min(fuel.saturating_add(1));
    if k < 13 {
        M::Seq((0..n).map(|_| gen_m_at(r, cfg, depth - 1, fuel, false)).collect())
    } else {
        let mut out: Vec<(M, M)> = Vec::new();
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n {
            let key = if cfg.merge_keys && r.chance(1, 4) {
                M::s("<<")
            } else if cfg.complex_keys && r.chance(1, 4) {
                gen_m_at(r, cfg, (depth - 1).min(3), fuel, false)
            } else {
                match r.below(8) {
                    0 => gen_scalar(r),
                    1 => M::Int(r.below(6) as i128),
                    2 | 3 => M::S(gen_string(r)),
                    _ => M::S(format!("{}{}", r.pick(&["k", "key", "a", "b", "name"]), r.below(30))),
                }
            };
            if seen.insert(key.canon()) {
                let v = gen_m_at(r, cfg, depth - 1, fuel, false);
                out.push((key, v));
            }
        }
        M::Map(out)
    }
}

/// Stable hash of a model for counting distinct cases.
pub fn mhash(m: &M) -> u64 {
    crate::fw::hash_of(&m.canon())
}
