//! Independent reference for scalar resolution, written from the rules.
use crate::model::M;

#[derive(Clone, Debug, PartialEq)]
pub enum IntRef {
    /// Not integer syntax.
    Not,
    /// sign, magnitude
    Val(bool, u128),
    /// Integer syntax outside [-2^127, 2^128-1]
    TooBig { prefixed: bool },
}

fn digits(s: &str, radix: u32) -> Option<Option<u128>> {
    // None: not digits. Some(None): overflow
    if s.is_empty() {
        return None;
    }
    let mut acc: Option<u128> = Some(0);
    for c in s.bytes() {
        let d = match c {
            b'0'..=b'9' => (c - b'0') as u32,
            b'a'..=b'f' => (c - b'a') as u32 + 10,
            b'A'..=b'F' => (c - b'A') as u32 + 10,
            _ => return None,
        };
        if d >= radix {
            return None;
        }
        acc = acc.and_then(|a| a.checked_mul(radix as u128)).and_then(|a| a.checked_add(d as u128));
    }
    Some(acc)
}

pub fn int_ref(s: &str) -> IntRef {
    let (neg, rest) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let (prefixed, mag) = if let Some(d) = rest.strip_prefix("0x") {
        (true, digits(d, 16))
    } else if let Some(d) = rest.strip_prefix("0o") {
        (true, digits(d, 8))
    } else if let Some(d) = rest.strip_prefix("0b") {
        (true, digits(d, 2))
    } else {
        if rest.len() > 1 && rest.starts_with('0') {
            return IntRef::Not;
        }
        (false, digits(rest, 10))
    };
    match mag {
        None => IntRef::Not,
        Some(Some(m)) if !neg || m <= 1u128 << 127 => IntRef::Val(neg && m != 0, m),
        Some(_) => IntRef::TooBig { prefixed },
    }
}

/// Decimal float grammar: sign? (digits (. digits?)? | . digits) (e sign? digits)?
pub fn decimal_grammar(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let run = |i: &mut usize| {
        let st = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - st
    };
    let mut n = run(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += run(&mut i);
    }
    if n == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if run(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

/// A number spelled as a float target accepts it (leading zeros allowed).
pub fn float_ref(s: &str) -> Option<f64> {
    match s {
        ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => return Some(f64::INFINITY),
        "-.inf" | "-.Inf" | "-.INF" => return Some(f64::NEG_INFINITY),
        ".nan" | ".NaN" | ".NAN" => return Some(f64::NAN),
        _ => {}
    }
    if decimal_grammar(s) {
        let f: f64 = s.strip_prefix('+').unwrap_or(s).parse().ok()?;
        if f.is_finite() {
            return Some(f);
        }
    }
    None
}

pub fn null_ref(s: &str) -> bool {
    matches!(s, "null" | "Null" | "NULL" | "~")
}
pub fn bool_ref(s: &str) -> Option<bool> {
    match s {
        "true" | "True" | "TRUE" => Some(true),
        "false" | "False" | "FALSE" => Some(false),
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    Val(M),
    /// An error is required.
    Err,
    /// The rules say nothing.
    Unspec,
}

fn int_res(r: IntRef) -> Option<Res> {
    match r {
        IntRef::Val(neg, m) => {
            if neg {
                if m <= 1u128 << 63 {
                    return Some(Res::Val(M::Int((m as i128).wrapping_neg())));
                }
            } else if m <= u64::MAX as u128 {
                return Some(Res::Val(M::Int(m as i128)));
            }
            // integers beyond 64 bits cannot be held by an untyped value
            Some(Res::Unspec)
        }
        _ => None,
    }
}

fn all_digits_leading_zero(s: &str) -> bool {
    let r = s.strip_prefix(['-', '+']).unwrap_or(s);
    r.len() > 1 && r.starts_with('0') && r.bytes().all(|b| b.is_ascii_digit())
}

/// Plain untagged scalar.
pub fn plain_ref(s: &str) -> Res {
    if s.is_empty() || null_ref(s) {
        return Res::Val(M::Null);
    }
    if let Some(b) = bool_ref(s) {
        return Res::Val(M::Bool(b));
    }
    if let Some(r) = int_res(int_ref(s)) {
        return r;
    }
    if !all_digits_leading_zero(s) {
        if let Some(f) = float_ref(s) {
            return Res::Val(M::F(f));
        }
    }
    Res::Val(M::s(s))
}

/// The untyped reading of a scalar node. `tag` is the resolved tag.
pub fn scalar_ref(tag: Option<&str>, plain: bool, s: &str) -> Res {
    match tag {
        None => {
            if plain {
                plain_ref(s)
            } else {
                Res::Val(M::s(s))
            }
        }
        Some("!") => Res::Unspec,
        Some("tag:yaml.org,2002:bool") => bool_ref(s).map_or(Res::Err, |b| Res::Val(M::Bool(b))),
        Some("tag:yaml.org,2002:int") => match int_ref(s) {
            r @ IntRef::Val(..) => int_res(r).unwrap(),
            _ => Res::Err,
        },
        Some("tag:yaml.org,2002:float") => {
            if all_digits_leading_zero(s) {
                return Res::Unspec;
            }
            float_ref(s).map_or(Res::Err, |f| Res::Val(M::F(f)))
        }
        Some("tag:yaml.org,2002:null") => {
            if s.is_empty() {
                Res::Unspec
            } else if null_ref(s) {
                Res::Val(M::Null)
            } else {
                Res::Err
            }
        }
        Some(t) if t.starts_with('!') => {
            let inner = if plain { plain_ref(s) } else { Res::Val(M::s(s)) };
            let name = &t[1..];
            if name.starts_with('!') {
                return Res::Unspec;
            }
            match inner {
                Res::Val(m) => Res::Val(M::Tag(name.to_string(), Box::new(m))),
                r => r,
            }
        }
        Some(_) => Res::Val(M::s(s)),
    }
}
