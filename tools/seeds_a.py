SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="b01-reader-short-read", property="C06",
 needs="a reader that returns fewer bytes than asked before the end of its data",
 breaks="from_reader takes a short read for the end of the input and parses only a prefix of the stream",
 edits=[("src/loader.rs", """                let mut buffer = Vec::new();
                if let Err(io_error) = rdr.read_to_end(&mut buffer) {
                    return Err(error::new(ErrorImpl::Io(io_error)));
                }
""", """                let mut buffer = Vec::new();
                let mut chunk = vec![0; 16 * 1024];
                loop {
                    match rdr.read(&mut chunk) {
                        Ok(len) => {
                            buffer.extend_from_slice(&chunk[..len]);
                            if len < chunk.len() {
                                break;
                            }
                        }
                        Err(ref err) if err.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(io_error) => return Err(error::new(ErrorImpl::Io(io_error))),
                    }
                }
""")],
 demo='''
struct Slow<'a>(&'a [u8]);
impl<'a> std::io::Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = 3.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn main() {
    let text = "list:\\n  - one\\n  - two\\nlast: 3\\n";
    let whole: Value = serde_yaml::from_str(text).unwrap();
    let read: Value = serde_yaml::from_reader(Slow(text.as_bytes())).unwrap();
    assert_eq!(whole, read);
}
''')

seed(id="b02-tagged-depth", property="C08",
 needs="a deep nesting in which every level carries a tag",
 breaks="the remaining depth starts over inside every tagged node, so tagged nesting is unbounded and overflows the stack",
 edits=[("src/de.rs", """            path: self.de.path,
            remaining_depth: self.de.remaining_depth,
            current_enum: Some(CurrentEnum {""", """            path: self.de.path,
            remaining_depth: 128,
            current_enum: Some(CurrentEnum {""")],
 demo='''
fn main() {
    let n = 600;
    let text = format!("{}{}", "!t [".repeat(n), "]".repeat(n));
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        serde_yaml::from_str::<Value>(&text).map(std::mem::forget).map_err(|e| e.to_string())
    }).unwrap().join().unwrap();
    let e = r.unwrap_err();
    assert!(e.contains("recursion limit exceeded"), "{e}");
}
''')

seed(id="b03-quoted-verbatim", property="C18",
 needs="a quoted scalar with a folded line break and no escapes, read as a borrowed string",
 breaks="a quoted scalar over two lines is lent as raw source text instead of its decoded content",
 edits=[("src/de.rs", """    if borrowed_bytes == utf8_value.as_bytes() {
        return""", """    let verbatim = match style {
        // Without an escape the text between the quotes is the content.
        ScalarStyle::SingleQuoted => !borrowed_bytes.contains(&b'\\''),
        _ => borrowed_bytes == utf8_value.as_bytes(),
    };
    if verbatim && str::from_utf8(borrowed_bytes).is_ok() {
        return""")],
 demo='''
fn main() {
    let text = "'one\\n   two'";
    let owned: String = serde_yaml::from_reader(text.as_bytes()).unwrap();
    assert_eq!(owned, "one two");
    if let Ok(s) = serde_yaml::from_str::<&str>(text) {
        assert_eq!(s, "one two");
    }
    let v: Value = serde_yaml::from_str(text).unwrap();
    assert_eq!(v, "one two");
}
''')

seed(id="b05-binary-sign", property="C04",
 needs="a typed signed integer target and a scalar like 0b-1",
 breaks="a malformed binary literal with an inner sign is accepted as a number by typed reads",
 edits=[("src/de.rs", """    if let Some(rest) = scalar.strip_prefix("-0o") {
        let negative = format!("-{}", rest);
        if let Ok(int) = from_str_radix(&negative, 8) {
            return Some(int);
        }
    }
    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok""", """    if let Some(rest) = scalar.strip_prefix("-0o") {
        let negative = format!("-{}", rest);
        if let Ok(int) = from_str_radix(&negative, 8) {
            return Some(int);
        }
    }
    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with('+') {
            return None;
        }
        if let Ok""")],
 demo='''
fn main() {
    assert!(serde_yaml::from_str::<i64>("0b-101").is_err());
    assert!(serde_yaml::from_str::<i32>("+0b-101").is_err());
    assert_eq!(serde_yaml::from_str::<i64>("-0b101").unwrap(), -5);
}
''')

seed(id="b06-big-negative-string", property="C03",
 needs="a string holding an integer below i64::MIN and within i128",
 breaks="the string is written plain and read back as a number",
 edits=[("src/ser.rs", """            fn visit_i128<E>(self, _v: i128) -> Result<Self::Value, E> {
                Ok(ScalarStyle::SingleQuoted)
            }

""", "")],
 demo='''
fn main() {
    for s in ["-9223372036854775809", "-170141183460469231731687303715884105728", "-5"] {
        let t = serde_yaml::to_string(s).unwrap();
        let v: Value = serde_yaml::from_str(&t).unwrap();
        assert_eq!(v, Value::String(s.to_owned()), "{t}");
    }
}
''')

seed(id="b07-short-floats", property="C02",
 needs="an f64 that is exactly representable as f32 but has a longer shortest decimal as f64",
 breaks="such an f64 is written with f32 precision and reads back as a different number",
 edits=[("src/ser.rs", """    fn serialize_f64(self, v: f64) -> Result<()> {
        let mut buffer = ryu::Buffer::new();
""", """    fn serialize_f64(self, v: f64) -> Result<()> {
        let narrow = v as f32;
        if v.is_normal() && f64::from(narrow) == v && narrow.fract() != 0.0 {
            // No need for more digits than the value carries.
            return self.serialize_f32(narrow);
        }
        let mut buffer = ryu::Buffer::new();
""")],
 demo='''
fn main() {
    for x in [0.1f32 as f64, 1.5, 2.75, -3.3f32 as f64, 1.0e10] {
        let t = serde_yaml::to_string(&x).unwrap();
        let y: f64 = serde_yaml::from_str(&t).unwrap();
        assert_eq!(x.to_bits(), y.to_bits(), "{t}");
    }
}
''')

seed(id="b08-shift-remove-entry", property="C14",
 needs="shift_remove_entry with a string key on an entry that is not among the last two",
 breaks="removing an entry by string key moves the last entry into its place instead of keeping the order",
 edits=[("src/mapping.rs", """        v.map.shift_remove_entry(&HashLikeValue(self))""", """        v.map.swap_remove_entry(&HashLikeValue(self))""")],
 demo='''
fn main() {
    let mut m: Mapping = serde_yaml::from_str("a: 1\\nb: 2\\nc: 3\\nd: 4\\n").unwrap();
    let e = m.shift_remove_entry("a").unwrap();
    assert_eq!(e, (Value::from("a"), Value::from(1)));
    let keys: Vec<&str> = m.keys().map(|k| k.as_str().unwrap()).collect();
    assert_eq!(keys, ["b", "c", "d"]);
}
''')

seed(id="b09-close-floats", property="C15",
 needs="two different floats closer together than 2.2e-16",
 breaks="different numbers are equal: one of two such mapping keys disappears, and order and hash disagree with equality",
 edits=[("src/number.rs", """                } else {
                    a == b
                }""", """                } else {
                    a == b || (a - b).abs() < f64::EPSILON
                }""")],
 demo='''
fn main() {
    let (a, b) = (Value::from(1e-20), Value::from(2e-20));
    assert_ne!(a, b);
    assert_ne!(Value::from(0.1 + 0.2), Value::from(0.3));
    assert_eq!(Value::from(0.5), Value::from(0.5));
}
''')

seed(id="b10-merge-in-nested-seq", property="C16",
 needs="a merge key in a mapping inside a sequence of sequences or under a tag inside a sequence",
 breaks="merge keys below nested or tagged sequence elements are left in place",
 edits=[("src/value/mod.rs", """                Value::Sequence(sequence) => stack.extend(sequence),""", """                Value::Sequence(sequence) => {
                    stack.extend(sequence.iter_mut().filter(|value| matches!(value, Value::Mapping(_))));
                }""")],
 demo='''
fn main() {
    let mut v: Value = serde_yaml::from_str("- - <<: {a: 1}\\n    b: 2\\n").unwrap();
    v.apply_merge().unwrap();
    assert_eq!(v[0][0]["a"], 1);
    assert!(v[0][0].get("<<").is_none());
}
''')

seed(id="b11-index-insert-sign", property="C17",
 needs="index assignment by a usize above i64::MAX on a mapping",
 breaks="the entry is inserted under a negative key, and an existing one is not found",
 edits=[("src/value/index.rs", """                    let n = Value::Number((*self).into());
                    return map""", """                    let n = Value::Number((*self as i64).into());
                    return map""")],
 demo='''
fn main() {
    let mut v = Value::Mapping(Mapping::new());
    let i = usize::MAX - 4;
    v[i] = Value::from("x");
    assert_eq!(v.get(i), Some(&Value::from("x")));
    assert_eq!(v[i], "x");
}
''')

seed(id="b12-short-write", property="C10",
 needs="a writer that accepts only part of a buffer",
 breaks="the rest of a buffer is lost without an error when the writer takes only part of it",
 edits=[("src/libyaml/emitter.rs", """    match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
        slice::from_raw_parts(buffer, size as usize)
    }) {
        Ok(()) => 1,
""", """    let buffer = unsafe { slice::from_raw_parts(buffer, size as usize) };
    let result = loop {
        match io::Write::write(unsafe { &mut *(*data).write }, buffer) {
            Err(ref err) if err.kind() == io::ErrorKind::Interrupted => {}
            result => break result,
        }
    };
    match result {
        Ok(written) if written > 0 || buffer.is_empty() => 1,
        Ok(_) => {
            unsafe {
                (*data).write_error = Some(io::ErrorKind::WriteZero.into());
            }
            0
        }
""")],
 demo='''
struct Small<'a>(&'a mut Vec<u8>);
impl<'a> std::io::Write for Small<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(2); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let v = vec!["alpha", "beta", "gamma"];
    let mut out = Vec::new();
    serde_yaml::to_writer(Small(&mut out), &v).unwrap();
    assert_eq!(String::from_utf8(out).unwrap(), serde_yaml::to_string(&v).unwrap());
}
''')

seed(id="b13-trailing-error", property="C09",
 needs="a syntax error in what follows the first document, with a single-document entry point",
 breaks="from_str and friends accept a stream whose second document is malformed",
 edits=[("src/de.rs", """        if loader.next_document().is_none() {
            Ok(t)
        } else {
            Err(error::new(ErrorImpl::MoreThanOneDocument))
        }""", """        match loader.next_document() {
            Some(next) if next.error.is_none() => Err(error::new(ErrorImpl::MoreThanOneDocument)),
            _ => Ok(t),
        }""")],
 demo='''
fn main() {
    assert_eq!(serde_yaml::from_str::<Value>("a: 1\\n").unwrap()["a"], 1);
    assert!(serde_yaml::from_str::<Value>("a: 1\\n--- [\\n").is_err());
    assert!(serde_yaml::from_str::<Value>("a: 1\\n---\\nb: {c\\n").is_err());
}
''')

seed(id="b14-ref-seq-remaining", property="C11",
 needs="reading a fixed-size target from a borrowed Value whose sequence is longer",
 breaks="surplus elements are dropped silently when reading from &Value, while owned values and text report them",
 edits=[("src/value/de.rs", """    let mut deserializer = SeqRefDeserializer::new(sequence);
    let seq = visitor.visit_seq(&mut deserializer)?;
    let remaining = deserializer.iter.len();
    if remaining == 0 {""", """    let mut deserializer = SeqRefDeserializer::new(sequence);
    let seq = visitor.visit_seq(&mut deserializer)?;
    let remaining = deserializer.iter.len();
    if remaining == 0 || remaining < len {""")],
 demo='''
fn main() {
    let v: Value = serde_yaml::from_str("[1, 2, 3]").unwrap();
    assert!(serde_yaml::from_value::<(u8, u8)>(v.clone()).is_err());
    assert!(<(u8, u8)>::deserialize(&v).is_err());
    assert_eq!(<(u8, u8, u8)>::deserialize(&v).unwrap(), (1, 2, 3));
}
''')

seed(id="b15-smr-tuple-variant", property="C12",
 needs="a tuple variant holding another enum, through with::singleton_map_recursive",
 breaks="enums inside a tuple variant keep the tag form instead of becoming single-key maps",
 edits=[("src/with.rs", """            let value = field
                .serialize(SingletonMapRecursive {
                    delegate: crate::value::Serializer,
                })
                .map_err(ser::Error::custom)?;
            self.sequence.push(value);""", """            let value = field
                .serialize(crate::value::Serializer)
                .map_err(ser::Error::custom)?;
            self.sequence.push(value);""")],
 demo='''
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { N(u8), T(Box<E>, u8), S { x: Box<E> } }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct W { #[serde(with = "serde_yaml::with::singleton_map_recursive")] e: E }
fn main() {
    let w = W { e: E::T(Box::new(E::N(1)), 2) };
    let t = serde_yaml::to_string(&w).unwrap();
    assert!(!t.contains('!'), "{t}");
    assert_eq!(serde_yaml::from_str::<W>(&t).unwrap(), w);
}
''')

seed(id="b16-escape-longer-than-source", property="C07",
 needs="a double quoted scalar whose decoded content is longer than its source, like \"\\L\\L\\L\"",
 breaks="parsing panics on a subtraction below zero",
 edits=[("src/de.rs", """    let expected_end = borrowed_repr.len().checked_sub(expected_offset)?;
    let expected_start = expected_end.checked_sub(utf8_value.len())?;""", """    let expected_end = borrowed_repr.len().checked_sub(expected_offset)?;
    let expected_start = expected_end - utf8_value.len();""")],
 demo='''
fn main() {
    let s: String = serde_yaml::from_str(r#""\\L\\L\\L\\L""#).unwrap();
    assert_eq!(s, "\\u{2028}\\u{2028}\\u{2028}\\u{2028}");
}
''')

seed(id="b17-collection-event-leak", property="C19",
 needs="tagged or anchored sequences or mappings in the input",
 breaks="the tag and anchor of every collection start are leaked",
 edits=[("src/libyaml/parser.rs", """            sys::yaml_event_delete(event);
            Ok((ret, mark))""", """            match ret {
                // These are the events that own memory.
                Event::Scalar(_) | Event::Alias(_) | Event::DocumentStart => {
                    sys::yaml_event_delete(event);
                }
                _ => {}
            }
            Ok((ret, mark))""")],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A; static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let text = "- &a !t [1]\\n- &b {k: *a}\\n- !u {x: 1}\\n";
    let run = || drop(serde_yaml::from_str::<Value>(text).unwrap());
    run();
    let before = N.load(SeqCst);
    for _ in 0..10 { run(); }
    assert_eq!(before, N.load(SeqCst));
}
''')

seed(id="b18-complex-duplicate", property="C05",
 needs="the same complex (sequence, mapping or tagged) key twice in one mapping",
 breaks="a duplicate complex key silently replaces the earlier entry instead of being reported",
 edits=[("src/mapping.rs", """                        Entry::Occupied(entry) => {
                            return Err(serde::de::Error::custom(DuplicateKeyError { entry }));
                        }""", """                        Entry::Occupied(mut entry) if entry.key().as_mapping().map_or(0, Mapping::len) > 1 => {
                            entry.insert(data.next_value()?);
                        }
                        Entry::Occupied(entry) => {
                            return Err(serde::de::Error::custom(DuplicateKeyError { entry }));
                        }""")],
 demo='''
fn main() {
    assert!(serde_yaml::from_str::<Value>("? {a: 1, b: 2}\\n: x\\n? {b: 2, a: 1}\\n: y\\n").is_err());
    assert!(serde_yaml::from_str::<Value>("? {a: 1}\\n: x\\n? {a: 2}\\n: y\\n").is_ok());
}
''')

seed(id="b19-tag-hash", property="C15",
 needs="two equal tagged values, one built with a leading '!' in the tag and one without",
 breaks="equal tags hash differently, so an equal mapping key is not found",
 edits=[("src/value/tagged.rs", """        nobang(&self.string).hash(hasher);""", """        self.string.hash(hasher);""")],
 demo='''
use std::hash::{Hash, Hasher};
use serde_yaml::value::{Tag, TaggedValue};
fn h(v: &Value) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut s); s.finish() }
fn t(tag: &str) -> Value { Value::Tagged(Box::new(TaggedValue { tag: Tag::new(tag), value: Value::Null })) }
fn main() {
    assert_eq!(t("x"), t("!x"));
    assert_eq!(h(&t("x")), h(&t("!x")));
}
''')

seed(id="b20-tagged-null-key", property="C01",
 needs="a tagged null as a key of a mapping (or inside a flow collection)",
 breaks="a tagged null is written as an empty scalar, which gets quoted in a key and reads back as a string",
 edits=[("src/ser.rs", """    fn serialize_unit(self) -> Result<()> {
        self.emit_scalar(Scalar {
            tag: None,
            value: "null",""", """    fn serialize_unit(self) -> Result<()> {
        let tagged = matches!(self.state, State::FoundTag(_));
        self.emit_scalar(Scalar {
            tag: None,
            value: if tagged { "" } else { "null" },""")],
 demo="""
use serde_yaml::value::{Tag, TaggedValue};
fn t(tag: &str, value: Value) -> Value { Value::Tagged(Box::new(TaggedValue { tag: Tag::new(tag), value })) }
fn main() {
    let mut m = Mapping::new();
    m.insert(t("x", Value::Null), t("y", Value::Null));
    m.insert("k".into(), 1.into());
    let v = Value::Mapping(m);
    let s = serde_yaml::to_string(&v).unwrap();
    assert_eq!(serde_yaml::from_str::<Value>(&s).unwrap(), v, "{s}");
}
""")

seed(id="b21-inf-string", property="C03",
 needs="a string that spells an infinity or NaN",
 breaks="the string .inf is written plain and reads back as a float",
 edits=[("src/ser.rs", """            fn visit_f64<E>(self, _v: f64) -> Result<Self::Value, E> {
                Ok(ScalarStyle::SingleQuoted)
            }""", """            fn visit_f64<E>(self, v: f64) -> Result<Self::Value, E> {
                Ok(if v.is_finite() {
                    ScalarStyle::SingleQuoted
                } else {
                    ScalarStyle::Any
                })
            }""")],
 demo="""
fn main() {
    for s in [".inf", "-.INF", ".nan", "+.Inf", "1e5"] {
        let t = serde_yaml::to_string(s).unwrap();
        assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), Value::String(s.to_owned()), "{t}");
    }
}
""")

seed(id="b23-repetition-per-path", property="C08",
 needs="aliases of mappings, nested several levels, so that the expansion is exponential",
 breaks="the number of alias jumps is tracked as a nesting depth for mappings, so a billion-laughs document of mappings is expanded without limit",
 edits=[("src/de.rs", """            Event::Alias(mut pos) => self.jump(&mut pos)?.deserialize_map(visitor),
""", """            Event::Alias(mut pos) => {
                let map = self.jump(&mut pos)?.deserialize_map(visitor);
                *self.jumpcount -= 1;
                map
            }
""")],
 demo="""
#[derive(Deserialize, Debug)]
struct N { #[serde(default)] l: Option<Box<N>>, #[serde(default)] r: Option<Box<N>> }
struct M(u64);
impl<'de> Deserialize<'de> for M {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = M;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("map") }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
                let mut n = 1;
                while let Some(_k) = a.next_key::<String>()? { n += a.next_value::<M>()?.0; }
                Ok(M(n))
            }
        }
        d.deserialize_map(V)
    }
}
fn main() {
    let mut t = String::from("a0: &a0 {}\\n");
    for i in 1..16 { t += &format!("a{i}: &a{i} {{l: *a{}, r: *a{}}}\\n", i - 1, i - 1); }
    let e = serde_yaml::from_str::<M>(&t).map(|m| m.0);
    let e = e.unwrap_err().to_string();
    assert!(e.contains("repetition limit"), "{e}");
}
""")
