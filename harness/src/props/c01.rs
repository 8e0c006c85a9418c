//! C01: untyped values survive a round trip through text.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "random value trees over every kind (sizes and scalars at boundaries, hostile strings, literals mined from the code, composite and tagged keys, single-entry maps) plus every small tree shape up to a bound; non-trivial = contains a container or tag",
        assumptions: &["a tag name's one leading '!' is not significant (documented); three classes of tag names are listed findings", "integers within [i64::MIN, u64::MAX]"],
        subs: vec![
            exhaustive("shapes", |t| shapes(t), shape_case),
            random("trees", 6, trees),
            random("wide-deep", 1, wide_deep),
            random("nested-tags", 1, nested_tags),
            random("tag-names", 1, tag_names),
        ],
        quick_secs: 20.0,
        thorough_secs: 420.0,
        stack_mb: 64,
    }
}

pub fn check_roundtrip(c: &mut Case, m: &M) -> R {
    let v = to_val(m);
    let before = from_val(&v);
    ensure!(before.same(m), "build", "value built through the API differs from the model: {}\nmodel {m:?}", diff(m, &before));
    let text = match serde_yaml::to_string(&v) {
        Ok(t) => t,
        Err(e) => return fail("serialize-error", format!("serializing failed: {e}\nvalue {v:?}")),
    };
    let back: Value = match serde_yaml::from_str(&text) {
        Ok(b) => b,
        Err(e) => return fail("parse-error", format!("own output does not parse: {e}\nvalue {v:?}\ntext {text:?}")),
    };
    let bm = from_val(&back);
    ensure!(bm.same(m), "roundtrip", "round trip changed the value {}\ntext {text:?}\nbefore {m:?}\nafter  {bm:?}", diff(m, &bm));
    ensure!(back == v, "eq", "round-tripped value is not equal to the original: {v:?} vs {back:?}");
    let text2 = match serde_yaml::to_string(&back) {
        Ok(t) => t,
        Err(e) => return fail("serialize-error", format!("second serialization failed: {e}\nvalue {back:?}")),
    };
    ensure!(text2 == text, "idempotent", "second serialization differs:\n{text:?}\n{text2:?}");
    c.ev("roundtrip");
    if m.has_tag() {
        c.ev("with tag");
    }
    Ok(())
}

fn trees(c: &mut Case) -> R {
    let m = gen_m(&mut c.rng, &GenCfg::default());
    if m.is_container() || m.has_tag() {
        c.nontrivial(&m.canon());
    }
    c.sample(|| format!("{m:?}"));
    check_roundtrip(c, &m)
}

fn wide_deep(c: &mut Case) -> R {
    // long chains of containers up to the documented nesting limit, or wide containers
    let m = if c.rng.bool() {
        let d = c.rng.range(7, 128);
        let mut m = gen_scalar(&mut c.rng);
        for _ in 0..d {
            let tag = c.rng.chance(1, 8);
            m = match c.rng.below(5) {
                0 => M::Seq(vec![m]),
                1 => M::Map(vec![(M::s("k"), m)]),
                2 => M::Map(vec![(m, M::Int(1))]),
                3 => M::Seq(vec![M::Int(0), m, gen_scalar(&mut c.rng)]),
                _ => M::Map(vec![(M::s("a"), M::Null), (M::s("b"), m)]),
            };
            if tag {
                m = M::Tag(gen_tag(&mut c.rng), Box::new(m));
            }
        }
        m
    } else {
        let n = gen_len(&mut c.rng, 3000);
        if c.rng.bool() {
            M::Seq((0..n).map(|i| if i % 7 == 0 { gen_scalar(&mut c.rng) } else { M::Int(i as i128) }).collect())
        } else {
            M::Map((0..n).map(|i| (M::S(format!("k{}", i)), if i % 7 == 0 { gen_scalar(&mut c.rng) } else { M::Int(i as i128) })).collect())
        }
    };
    c.nontrivial(&m.canon());
    check_roundtrip(c, &m)
}

fn nested_tags(c: &mut Case) -> R {
    let cfg = GenCfg { nested_tags: true, ..GenCfg::default() };
    let mut m = gen_m(&mut c.rng, &cfg);
    if c.rng.chance(1, 2) && !m.has_nested_tag() {
        m = M::Tag(gen_tag(&mut c.rng), Box::new(M::Tag(gen_tag(&mut c.rng), Box::new(m))));
        if c.rng.bool() {
            m = M::Seq(vec![M::Int(1), m]);
        }
    }
    if !m.has_nested_tag() {
        return check_roundtrip(c, &m);
    }
    c.nontrivial(&m.canon());
    let v = to_val(&m);
    match serde_yaml::to_string(&v) {
        Err(e) => {
            let _ = e.to_string();
            c.ev("nested tag refused");
            Ok(())
        }
        Ok(t) => fail("nested-tag-written", format!("a tag applied to a tagged value was written: {v:?}\n{t:?}")),
    }
}

// ---- any text as a tag name

/// A tag of any Unicode text at every place a tag can stand. Three causes are
/// known to lose the name and are listed as findings; each is accepted only
/// when it shows exactly the predicted way, so anything else is reported.
fn tag_names(c: &mut Case) -> R {
    let name = match c.rng.below(10) {
        0..=2 => gen_tag(&mut c.rng),
        3..=5 => {
            let n = c.rng.range(1, 8);
            (0..n).map(|_| gen_char(&mut c.rng)).collect()
        }
        6 => gen_string(&mut c.rng),
        7 => {
            let mut s = gen_tag(&mut c.rng);
            let mut at = c.rng.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert(at, gen_char(&mut c.rng));
            s
        }
        8 => (*c.rng.pick(&["!", "!!", "!!!", "%", "%21", "%2C", "%00", "a%00b", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "!!str", "!str", "<x>", "!<x>", "a!b", "!a!b", "a!", "!a!", "&a", "*a", "#", "a#b", "a b", " a", "a ", "a\n", "\t", ":", "a:", "{", "}", "{}", "'a'", "\"a\"", "\\", "|", ">", "-", "?", "---", "..."])).to_string(),
        _ => {
            let n = c.rng.range(1, 5);
            (0..n).map(|_| *c.rng.pick(&['!', '!', 'a', '%', '2', '1', ':', '<', '>', '#', ' ', '&', '*', ';', '/', '?', '@', '=', '+', '$', '_', '.', '~', '(', ')', '\''])).collect()
        }
    };
    if name.is_empty() {
        return Ok(());
    }
    let payload = match c.rng.below(6) {
        0 => M::Null,
        1 => M::Int(1),
        2 => M::Seq(vec![M::s("x")]),
        3 => M::Map(vec![(M::s("k"), M::Int(1))]),
        4 => {
            if c.rng.bool() {
                M::Seq(vec![])
            } else {
                M::Map(vec![])
            }
        }
        _ => gen_scalar(&mut c.rng),
    };
    let tagged = |n: &str| Value::Tagged(Box::new(TaggedValue { tag: Tag::new(n), value: to_val(&payload) }));
    let place = c.rng.below(7);
    let put = |v: Value| -> Value {
        let mut m = Mapping::new();
        match place {
            0 => v,
            1 => Value::Sequence(vec![v]),
            2 => Value::Sequence(vec![Value::from("before"), v, Value::from("after")]),
            3 => {
                m.insert("k".into(), v);
                m.into()
            }
            4 => {
                m.insert(v, "after".into());
                m.into()
            }
            5 => {
                m.insert("a".into(), 1.into());
                m.insert(v, Value::Null);
                m.insert("z".into(), Value::Sequence(vec![]));
                m.into()
            }
            _ => {
                m.insert("a".into(), v);
                m.insert("z".into(), "after".into());
                Value::Sequence(vec![m.into(), Value::Null])
            }
        }
    };
    let v = put(tagged(&name));
    c.nontrivial(&(place, &name, payload.canon()));
    let text = match serde_yaml::to_string(&v) {
        Ok(t) => t,
        Err(e) => return fail("tag-serialize", format!("tag {name:?} at place {place}: {e}")),
    };
    let back = serde_yaml::from_str::<Value>(&text);
    // PartialEq of Tag does not distinguish one leading '!'; that is documented.
    if matches!(&back, Ok(b) if *b == v) {
        c.ev("any tag name kept");
        let again = serde_yaml::to_string(&back.unwrap()).unwrap_or_default();
        ensure!(again == text, "tag-idempotent", "tag {name:?}: second serialization differs:\n{text:?}\n{again:?}");
        return Ok(());
    }
    let bare = match name.strip_prefix('!') {
        Some("") | None => &name[..],
        Some(rest) => rest,
    };
    // What the name becomes on the way, by the known causes only.
    let mut written = if bare.starts_with('!') { bare.to_string() } else { format!("!{bare}") };
    let mut cause = "a leading '!!' loses one '!'";
    if let Some(nul) = written.find('\0') {
        written.truncate(nul);
        cause = "tag cut at NUL";
    }
    if written.contains([',', '[', ']']) {
        let e = match &back {
            Ok(b) => return fail("tag-roundtrip", format!("tag {name:?} at place {place} came back as {b:?}\ntext {text:?}")),
            Err(e) => e.to_string(),
        };
        ensure!(e.contains("while scanning a tag") || e.contains("did not find expected"), "tag-roundtrip", "tag {name:?} at place {place}: {e}\ntext {text:?}");
        return fail("tag with ',' '[' or ']' is written unreadable", format!("tag {name:?} at place {place}: {e}\ntext {text:?}"));
    }
    // The reader takes one '!' off, and the name it keeps may again begin with one.
    let read = match written.strip_prefix('!') {
        Some("") | None => &written[..],
        Some(rest) => rest,
    };
    if let Ok(b) = &back {
        if *b == put(tagged(read)) {
            return fail(cause, format!("tag {name:?} at place {place} came back as {read:?}\ntext {text:?}"));
        }
    }
    fail("tag-roundtrip", format!("tag {name:?} at place {place} came back as {back:?}\ntext {text:?}"))
}

// ---- every tree shape up to a small size

/// Leaves and combinators are decoded from the index in a mixed radix.
fn shapes(thorough: bool) -> u64 {
    if thorough {
        3_000_000
    } else {
        300_000
    }
}
struct Dig(u64);
impl Dig {
    fn take(&mut self, n: u64) -> u64 {
        let d = self.0 % n;
        self.0 /= n;
        d
    }
}
fn shape(d: &mut Dig, depth: u32, under_tag: bool) -> M {
    // 0.. leaf kinds when the digits run out
    let k = d.take(9);
    match k {
        0 => M::s("a"),
        1 => M::Int(1),
        2 => M::Null,
        _ if depth == 0 => M::s(["", "x: y", "1"][(k % 3) as usize]),
        3 => M::Seq(vec![]),
        4 => M::Seq(vec![shape(d, depth - 1, false)]),
        5 => M::Map(vec![(shape(d, depth - 1, false), shape(d, depth - 1, false))]),
        6 => {
            let k1 = shape(d, depth - 1, false);
            let v1 = shape(d, depth - 1, false);
            let k2 = M::s("z2");
            let v2 = shape(d, depth - 1, false);
            if d.take(2) == 0 {
                M::Map(vec![(k1, v1), (k2, v2)])
            } else {
                M::Map(vec![(k2, v2), (k1, v1)])
            }
        }
        7 => {
            if under_tag {
                M::Map(vec![])
            } else {
                M::Tag("t".into(), Box::new(shape(d, depth, true)))
            }
        }
        _ => M::Seq(vec![shape(d, depth - 1, false), shape(d, depth - 1, false)]),
    }
}
fn shape_case(c: &mut Case, idx: u64) -> R {
    let m = shape(&mut Dig(idx), 4, false);
    if m.is_container() || m.has_tag() {
        c.nontrivial(&m.canon());
    }
    check_roundtrip(c, &m)
}
