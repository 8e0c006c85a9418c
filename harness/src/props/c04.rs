//! C04: scalar resolution and exact integers.
use crate::ensure;
use crate::any::AnyM;
use crate::fw::*;
use crate::model::*;
use crate::raw::{self, Ev, Out, Style};
use crate::resolve::*;
use serde::Deserialize;
use serde_yaml::{Number, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "every string up to a small length over the alphabet of scalar spellings; integers around every power of two and ten, in four radixes with signs and digit-count variations; near misses; each plain, quoted and block, with and without core tags, untyped (root, key, element, flow, tagged) and into every primitive type; non-trivial = distinct spelling",
        assumptions: &["negative zero into an unsigned target, core tags on quoted scalars for typed targets and untyped integers beyond 64 bits are left open"],
        subs: vec![
            exhaustive("short", |t| count_upto(if t { 5 } else { 4 }), short),
            exhaustive("signs-and-digits", |_| SIGN.len() as u64 * RADIX.len() as u64 * 140, radix_lengths),
            exhaustive("powers", |_| 130 * 7 * 3 * 4 + 40 * 7 * 3, powers),
            random("numbers", 4, numbers),
            random("positions", 3, positions),
            random("tags", 3, tags),
        ],
        quick_secs: 14.0,
        thorough_secs: 400.0,
        stack_mb: 16,
    }
}

const ALPHA: &[char] = &['0', '1', '7', '9', 'a', 'f', 'e', 'x', 'o', 'b', '+', '-', '.', '_', '~', 'i', 'n', 'N', 'E', 'F'];
fn count_upto(n: u32) -> u64 {
    let a = ALPHA.len() as u64;
    (0..=n).map(|k| a.pow(k)).sum()
}
fn nth(mut idx: u64) -> String {
    let a = ALPHA.len() as u64;
    let mut len = 0;
    let mut block = 1;
    while idx >= block {
        idx -= block;
        block *= a;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(ALPHA[(idx % a) as usize]);
        idx /= a;
    }
    s
}

/// The single scalar of a document, as the raw parser reports it.
fn raw_scalar(text: &str) -> Option<(Option<String>, Style, String)> {
    let d = raw::docs(text.as_bytes());
    if d.err.is_some() || d.docs.len() != 1 || d.docs[0].events.len() != 1 {
        return None;
    }
    match &d.docs[0].events[0].ev {
        Ev::Scalar { anchor: None, tag, value, style } => {
            let tag = match tag {
                None => None,
                Some(t) => Some(String::from_utf8(t.clone()).ok()?),
            };
            Some((tag, *style, String::from_utf8(value.clone()).ok()?))
        }
        _ => None,
    }
}

#[derive(Deserialize, Debug)]
struct Unit;
#[derive(Deserialize, Debug)]
struct Nt<T>(T);

/// Some(Some(v)) must be v, Some(None) must be an error, None open.
fn int_expect(s: &str, lo: i128, hi: u128) -> Option<Option<(bool, u128)>> {
    match int_ref(s) {
        IntRef::Val(neg, m) => {
            if m == 0 && s.starts_with('-') && lo == 0 {
                return None; // negative zero into an unsigned target
            }
            let fits = if neg { m <= lo.unsigned_abs() } else { m <= hi };
            Some(if fits { Some((neg, m)) } else { None })
        }
        _ => Some(None),
    }
}

macro_rules! int_targets {
    ($text:expr, $s:expr, $complete:expr, $($t:ty),*) => {$(
        {
            let got = serde_yaml::from_str::<$t>($text);
            let sig = |v: $t| -> (bool, u128) {
                #[allow(unused_comparisons)]
                if v < 0 { (true, (v as i128).unsigned_abs()) } else { (false, v as u128) }
            };
            let want = int_expect($s, <$t>::MIN as i128, <$t>::MAX as u128);
            let g = got.as_ref().ok().map(|v| sig(*v));
            match (&g, &want) {
                (Some(v), Some(Some(w))) => ensure!(v == w, "int-value", "{:?} into {} gives {:?}, the text says {:?}", $text, stringify!($t), got, w),
                (Some(_), Some(None)) => ensure!(false, "int-accepts", "{:?} into {} gives {:?} but is not an integer in range", $text, stringify!($t), got),
                (None, Some(Some(w))) if $complete => ensure!(false, "int-refuses", "{:?} into {} fails but is {:?}: {:?}", $text, stringify!($t), w, got),
                (Some(v), None) => ensure!(v.1 == 0, "int-value", "{:?} into {} gives {:?}", $text, stringify!($t), got),
                _ => {}
            }
        }
    )*};
}

fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// All typed targets for a document consisting of one scalar.
fn typed(c: &mut Case, text: &str) -> R {
    let (tag, style, s) = match raw_scalar(text) {
        Some(x) => x,
        None => return Ok(()),
    };
    let s = &s[..];
    let plain = style == Style::Plain;
    let core = |t: &str| tag.as_deref() == Some(&format!("tag:yaml.org,2002:{t}")[..]);
    // complete: the rules oblige acceptance
    let forced = |t: &str| if plain { tag.is_none() || core(t) } else { style == Style::Literal && core(t) };
    let complete = forced("int");
    int_targets!(text, s, complete, i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, isize, usize);
    let quoted_untagged = !plain && tag.is_none();
    if quoted_untagged {
        ensure!(serde_yaml::from_str::<i64>(text).is_err() && serde_yaml::from_str::<u128>(text).is_err(), "quoted-int", "{text:?} is quoted but reads as an integer");
        ensure!(serde_yaml::from_str::<f64>(text).is_err(), "quoted-float", "{text:?} is quoted but reads as a float");
        ensure!(serde_yaml::from_str::<bool>(text).is_err(), "quoted-bool", "{text:?} is quoted but reads as a boolean");
        ensure!(serde_yaml::from_str::<()>(text).is_err(), "quoted-unit", "{text:?} is quoted but reads as unit");
    }
    // any visitor that takes wide integers hears them exactly
    if let (IntRef::Val(neg, m), true, None, Res::Val(M::Int(_)) | Res::Unspec) = (int_ref(s), plain, tag.as_deref(), plain_ref(s)) {
        let fits = if neg { m <= 1 << 127 } else { true };
        let want = match (neg, i128::try_from(m)) {
            (false, Ok(i)) => Some(M::Int(i)),
            (false, Err(_)) => Some(M::S(format!("\u{1}u128 {m}"))),
            (true, _) if fits => Some(M::Int((m as i128).wrapping_neg())),
            _ => None,
        };
        if let Some(w) = want {
            match serde_yaml::from_str::<AnyM>(text) {
                Ok(AnyM(g)) => ensure!(g.same(&w) || matches!((&w, &g), (M::Int(0), M::F(f)) if *f == 0.0 && neg), "wide-visit", "{text:?} is heard as {g:?}, expected {w:?}"),
                Err(e) => return fail("wide-visit", format!("{text:?} into any visitor fails: {e}")),
            }
            c.ev("integers heard by a 128-bit visitor");
        }
    }
    // floats
    let got = serde_yaml::from_str::<f64>(text);
    let got32 = serde_yaml::from_str::<f32>(text);
    match (float_ref(s), &got) {
        (Some(w), Ok(g)) => {
            ensure!(feq(w, *g), "float-value", "{text:?} into f64 gives {g:?}, nearest is {w:?}");
            let g32 = *got32.as_ref().map_err(|e| Fail { sig: "float-refuses".into(), msg: format!("{text:?} reads as f64 but not as f32: {e}") })?;
            ensure!(g32.to_bits() == (w as f32).to_bits() || (w.is_nan() && g32.is_nan()), "float-value", "{text:?} into f32 gives {g32:?}, nearest is {:?}", w as f32);
        }
        (Some(w), Err(e)) if forced("float") => return fail("float-refuses", format!("{text:?} into f64 fails but is {w:?}: {e}")),
        (None, Ok(g)) => return fail("float-accepts", format!("{text:?} into f64 gives {g:?}")),
        _ => {}
    }
    // bool
    let got = serde_yaml::from_str::<bool>(text);
    match (bool_ref(s), &got) {
        (Some(w), Ok(g)) => ensure!(w == *g, "bool-value", "{text:?} into bool gives {g:?}"),
        (Some(_), Err(e)) if forced("bool") => return fail("bool-refuses", format!("{text:?} into bool fails: {e}")),
        (None, Ok(g)) => return fail("bool-accepts", format!("{text:?} into bool gives {g:?}")),
        _ => {}
    }
    // unit
    if tag.is_none() || core("null") {
        let nullish = plain && (null_ref(s) || (s.is_empty() && tag.is_none()));
        if !(s.is_empty() && tag.is_some()) {
            let got = serde_yaml::from_str::<()>(text);
            ensure!(got.is_ok() == nullish || (core("null") && !plain), "unit", "{text:?} into unit: {got:?}");
            let got = serde_yaml::from_str::<Unit>(text);
            ensure!(got.is_ok() == nullish || (core("null") && !plain), "unit", "{text:?} into a unit struct: {got:?}");
        }
        // options
        if tag.is_none() || plain {
            let got = serde_yaml::from_str::<Option<String>>(text);
            if tag.is_some() && !null_ref(s) {
                if !s.is_empty() {
                    ensure!(got.is_err(), "option", "{text:?} forces null but reads as {got:?}");
                }
            } else {
                let want = if nullish { None } else { Some(s.to_string()) };
                ensure!(matches!(&got, Ok(g) if *g == want), "option", "{text:?} into Option<String> gives {got:?}, expected {want:?}");
                let got = serde_yaml::from_str::<Option<i64>>(text);
                if nullish {
                    ensure!(matches!(got, Ok(None)), "option", "{text:?} into Option<i64> gives {got:?}");
                } else {
                    let inner = serde_yaml::from_str::<i64>(text).ok();
                    ensure!(got.as_ref().ok() == inner.map(Some).as_ref(), "option", "{text:?} into Option<i64> gives {got:?}, into i64 {inner:?}");
                }
            }
        }
    }
    // strings
    let got = serde_yaml::from_str::<String>(text);
    ensure!(matches!(&got, Ok(g) if g == s), "string", "{text:?} into String gives {got:?}, expected {s:?}");
    let got = serde_yaml::from_str::<char>(text);
    let one = { let mut it = s.chars(); match (it.next(), it.next()) { (Some(ch), None) => Some(ch), _ => None } };
    ensure!(got.as_ref().ok() == one.as_ref(), "char", "{text:?} into char gives {got:?}");
    let a = serde_yaml::from_str::<Nt<Option<u8>>>(text).ok().map(|n| n.0);
    let b = serde_yaml::from_str::<Option<u8>>(text).ok();
    ensure!(a == b, "newtype", "{text:?} into a newtype gives {a:?}, without it {b:?}");
    c.ev("scalars read into every primitive type");
    Ok(())
}

fn untyped(c: &mut Case, text: &str) -> R {
    let got = serde_yaml::from_str::<Value>(text);
    match raw::single(text.as_bytes()) {
        Out::Val(m) => match &got {
            Ok(v) => {
                let g = from_val(v);
                ensure!(g.same(&m), "untyped", "{text:?} reads as {v:?}: {}", diff(&m, &g));
                c.ev("untyped readings as the rules say");
            }
            Err(e) => return fail("untyped-error", format!("{text:?} should read as {m:?} but fails: {e}")),
        },
        Out::Err(why) => {
            ensure!(got.is_err(), "untyped-accepts", "{text:?} should be refused ({why}) but reads as {got:?}");
            c.ev("untyped refusals as the rules say");
        }
        Out::Unspec(_) => {
            // whatever it is, it may not be a wrapped or rounded integer
            if let (Some((tag, _, s)), Ok(v)) = (raw_scalar(text), &got) {
                if tag.as_deref() != Some("!") {
                    if let (Some(i), IntRef::Val(neg, m)) = (v.as_i64(), int_ref(&s)) {
                        ensure!((i < 0) == neg && i.unsigned_abs() as u128 == m, "untyped-wrap", "{text:?} reads as {v:?}");
                    }
                    if let (Some(i), IntRef::Val(neg, m)) = (v.as_u64(), int_ref(&s)) {
                        ensure!(!neg && i as u128 == m, "untyped-wrap", "{text:?} reads as {v:?}");
                    }
                }
            }
            c.ev("left open");
        }
    }
    Ok(())
}

fn number_parse(s: &str) -> R {
    let got = s.parse::<Number>();
    let want = match plain_ref(s) {
        Res::Val(m @ (M::Int(_) | M::F(_))) => Some(m),
        Res::Unspec => return Ok(()),
        _ => None,
    };
    match (&got, &want) {
        (Ok(n), Some(w)) => ensure!(num_model(n).same(w), "number-parse", "{s:?} parses as Number {n:?}, expected {w:?}"),
        (Err(_), None) => {}
        _ => return fail("number-parse", format!("{s:?} parses as Number {got:?}, expected {want:?}")),
    }
    Ok(())
}

fn all(c: &mut Case, s: &str) -> R {
    c.nontrivial(s);
    c.sample(|| s.to_string());
    untyped(c, s)?;
    typed(c, s)?;
    number_parse(s)
}

fn short(c: &mut Case, idx: u64) -> R {
    let s = nth(idx);
    if s.chars().count() == 5 {
        c.nontrivial(&s);
        untyped(c, &s)?;
        let (w, g) = (int_ref(&s), serde_yaml::from_str::<i64>(&s));
        if let (Some((None, Style::Plain, _)), IntRef::Val(..)) = (raw_scalar(&s), &w) {
            ensure!(g.is_ok(), "int-refuses", "{s:?} into i64: {g:?}");
        }
        return typed(c, &s);
    }
    all(c, &s)?;
    all(c, &format!("'{s}'"))?;
    all(c, &format!("\"{s}\""))
}

const SIGN: &[&str] = &["", "+", "-", "+-", "-+", "--", "++"];
const RADIX: &[&str] = &["", "0x", "0o", "0b", "0", "00", "0X", "0O", "0B", "0x+", "0x-", "0o-", "0b+", "0b-"];
fn radix_lengths(c: &mut Case, idx: u64) -> R {
    let s = SIGN[(idx % 7) as usize];
    let i = idx / 7;
    let p = RADIX[(i % RADIX.len() as u64) as usize];
    let n = (i / RADIX.len() as u64) as usize;
    let digs: &[&str] = match &p.get(1..2) {
        Some("x") | Some("X") => &["1", "7", "f", "0", "F"],
        Some("o") | Some("O") => &["1", "7", "0", "3"],
        Some("b") | Some("B") => &["1", "0"],
        _ => &["1", "9", "3"],
    };
    for d in digs {
        all(c, &format!("{s}{p}{}", d.repeat(n)))?;
        // leading one, then zeros: exact powers
        all(c, &format!("{s}{p}1{}", "0".repeat(n)))?;
        if n <= 40 {
            all(c, &format!("{s}{p}{}g", d.repeat(n)))?;
            all(c, &format!("{s}{p}{}.{}", d.repeat(n), d))?;
        }
    }
    Ok(())
}

/// sign and magnitude in a radix, written here
fn spell(neg: &str, m: u128, radix: u64) -> String {
    match radix {
        0 => format!("{neg}{m}"),
        1 => format!("{neg}{m:#x}"),
        2 => format!("{neg}{m:#o}"),
        _ => format!("{neg}{m:#b}"),
    }
}
fn powers(c: &mut Case, idx: u64) -> R {
    let n2 = 130 * 7 * 3 * 4;
    let (base, i) = if idx < n2 {
        (if idx % 130 >= 128 { u128::MAX } else { 1u128 << (idx % 130) }, idx / 130)
    } else {
        let k = (idx - n2) % 40;
        (if k >= 39 { u128::MAX / 10 * 10 } else { 10u128.pow(k as u32) }, (idx - n2) / 40)
    };
    let delta = (i % 7) as i64 - 3;
    let sign = ["", "-", "+"][(i / 7 % 3) as usize];
    let radix = i / 21 % 4;
    let m = if delta < 0 { base.saturating_sub(delta.unsigned_abs() as u128) } else { base.saturating_add(delta as u128) };
    let s = spell(sign, m, radix);
    all(c, &s)?;
    // one beyond the widest integer
    if base == u128::MAX {
        all(c, &format!("{sign}340282366920938463463374607431768211456"))?;
        all(c, &format!("{sign}170141183460469231731687303715884105729"))?;
    }
    all(c, &format!("{s}.0"))?;
    all(c, &format!("{s}e0"))?;
    all(c, &format!("!!int {s}"))?;
    all(c, &format!("!!float {s}"))?;
    all(c, &format!("[{s}]"))
}

fn numbers(c: &mut Case) -> R {
    let s = match c.rng.below(6) {
        0 => {
            // random digits with random structure
            let n = gen_len(&mut c.rng, 60);
            let sign = *c.rng.pick(&["", "", "-", "+"]);
            let d: String = (0..n).map(|_| (b'0' + c.rng.below(10) as u8) as char).collect();
            format!("{sign}{d}")
        }
        1 => {
            let m = (c.rng.next() as u128) << 64 | c.rng.next() as u128;
            let m = m >> c.rng.below(128);
            let neg = *c.rng.pick(&["", "-", "+"]);
            let radix = c.rng.below(4) as u64;
            let mut t = spell(neg, m, radix);
            if c.rng.chance(1, 3) {
                t = t.to_uppercase();
            }
            if c.rng.chance(1, 4) {
                // insert leading zeros after the prefix
                if let Some(p) = t.find(|ch: char| ch == 'x' || ch == 'o' || ch == 'b') {
                    t.insert_str(p + 1, &"0".repeat(c.rng.range(1, 40)));
                }
            }
            t
        }
        2 => {
            let f = gen_f64(&mut c.rng);
            match c.rng.below(4) {
                0 => format!("{f}"),
                1 => format!("{f:e}"),
                2 => format!("{f:?}"),
                _ => format!("{f:E}"),
            }
        }
        3 => {
            // hand-built decimals near rounding boundaries
            let digs = c.rng.range(1, 25);
            let mut s = String::new();
            for k in 0..digs {
                s.push((b'0' + c.rng.below(10) as u8) as char);
                if k == digs / 2 {
                    s.push('.');
                }
            }
            if c.rng.bool() {
                s.push_str(&format!("e{}", c.rng.range(0, 650) as i32 - 330));
            }
            s
        }
        _ => gen_number_text(&mut c.rng),
    };
    all(c, &s)
}

/// The scalar in every position of a document, untyped.
fn positions(c: &mut Case) -> R {
    let s = if c.rng.chance(1, 3) { gen_string(&mut c.rng) } else { gen_number_text(&mut c.rng) };
    if s.len() > 200 || s.contains('\n') {
        return Ok(());
    }
    let spell = match c.rng.below(4) {
        0 | 1 => s.clone(),
        2 => format!("'{}'", s.replace('\'', "''")),
        _ => {
            if s.chars().any(|ch| (ch as u32) < 0x20 || ch == '"' || ch == '\\') {
                s.clone()
            } else {
                format!("\"{s}\"")
            }
        }
    };
    c.nontrivial(&spell);
    let docs = [
        format!("{spell}\n"),
        format!("--- {spell}\n...\n"),
        format!("- {spell}\n- {spell}\n"),
        format!("k: {spell}\n"),
        format!("{spell}: {spell}\n"),
        format!("? {spell}\n: {spell}\n"),
        format!("[{spell}, {spell}]"),
        format!("{{k: {spell}, {spell}: v}}"),
        format!("!t {spell}"),
        format!("- !t {spell}\n- &a {spell}\n- *a\n"),
        format!("k: !a/b {spell}   # comment\nl: &x !y {spell}\n"),
        format!("# c\n{spell} # c\n"),
        format!("|\n {s}\n"),
        format!(">-\n {s}\n"),
        format!("k: |-\n  {s}\n"),
    ];
    for d in &docs {
        untyped(c, d)?;
        typed(c, d)?;
    }
    Ok(())
}

fn tags(c: &mut Case) -> R {
    let s = match c.rng.below(5) {
        0 => (*c.rng.pick(&["null", "~", "Null", "NULL", "nUll", "true", "True", "TRUE", "tRUE", "yes", "", "0", "-0", "1.0", ".inf", "-.INF", "+.inf", ".nan", "-.nan", "0x1F", "0o17", "0b101", "00", "1e3", "1_000", "y", "off"])).to_string(),
        1 => nth(c.rng.next() % count_upto(4)),
        2 => gen_string(&mut c.rng),
        _ => gen_number_text(&mut c.rng),
    };
    if s.len() > 200 || s.contains('\n') {
        return Ok(());
    }
    let tag = *c.rng.pick(&["!!bool", "!!int", "!!float", "!!null", "!!str", "!!binary", "!!set", "!local", "!<tag:yaml.org,2002:int>", "!<tag:yaml.org,2002:null>", "!<!x>", "!int", "!null"]);
    let body = match c.rng.below(5) {
        0 | 1 => s.clone(),
        2 => format!("'{}'", s.replace('\'', "''")),
        3 => {
            if s.chars().any(|ch| (ch as u32) < 0x20 || ch == '"' || ch == '\\') {
                s.clone()
            } else {
                format!("\"{s}\"")
            }
        }
        _ => format!("|-\n  {s}"),
    };
    let text = format!("{tag} {body}\n");
    c.nontrivial(&text);
    c.sample(|| text.clone());
    untyped(c, &text)?;
    typed(c, &text)?;
    let inseq = match c.rng.below(3) {
        0 => format!("- {tag} {body}\n- 1\n"),
        1 => format!("k: {tag} {body}\n"),
        _ => format!("a: 1\nk: &z {tag} {body}\nl: *z\n"),
    };
    untyped(c, &inseq)
}
