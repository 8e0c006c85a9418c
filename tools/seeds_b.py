SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c01-negative-zero", property="C01",
 needs="the float -0.0",
 breaks="-0.0 is written as 0.0 and loses its sign",
 edits=[("src/ser.rs", """    fn serialize_f64(self, v: f64) -> Result<()> {
        let mut buffer = ryu::Buffer::new();
        self.emit_scalar(Scalar {
            tag: None,
            value: match v.classify() {
""", """    fn serialize_f64(self, v: f64) -> Result<()> {
        let mut buffer = ryu::Buffer::new();
        self.emit_scalar(Scalar {
            tag: None,
            value: match v.classify() {
                num::FpCategory::Zero => "0.0",
""")],
 demo=r"""
fn main() {
    let t = serde_yaml::to_string(&-0.0f64).unwrap();
    assert!(serde_yaml::from_str::<f64>(&t).unwrap().is_sign_negative(), "{t}");
}
""")

seed(id="c03-tilde-char", property="C03",
 needs="the character '~'",
 breaks="the char '~' is written plain and reads back as null",
 edits=[("src/ser.rs", """            value: value.encode_utf8(&mut [0u8; 4]),
            style: ScalarStyle::SingleQuoted,""", """            value: value.encode_utf8(&mut [0u8; 4]),
            style: if "-?:,[]{}#&*!|>'\\"%@`.0123456789".contains(value) {
                ScalarStyle::SingleQuoted
            } else {
                ScalarStyle::Any
            },""")],
 demo=r"""
fn main() {
    for c in ['~', 'x', '-', '1', '?', '\n', ' '] {
        let t = serde_yaml::to_string(&c).unwrap();
        assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), Value::String(c.to_string()), "{t}");
    }
}
""")

seed(id="c04-overflowing-float", property="C04",
 needs="a float literal too large for f64",
 breaks="1e999 silently becomes infinity instead of staying a string",
 edits=[("src/de.rs", """        if float.is_finite() {
            return Some(float);
        }""", """        if float.is_finite() || unpositive.ends_with(|c: char| c.is_ascii_digit()) {
            return Some(float);
        }""")],
 demo=r"""
fn main() {
    let v: Value = serde_yaml::from_str("[1e999, -1e999, inf, 1e30]").unwrap();
    assert_eq!(v[0], Value::String("1e999".into()));
    assert_eq!(v[1], Value::String("-1e999".into()));
    assert_eq!(v[2], Value::String("inf".into()));
    assert!(serde_yaml::from_str::<f64>("1e999").is_err());
}
""")

seed(id="c05-anchors-across-documents", property="C09",
 needs="a stream whose second document uses an anchor defined only in the first",
 breaks="anchors survive the end of their document, so the alias resolves to an unrelated node instead of failing",
 edits=[("src/loader.rs", """    document_count: usize,
}

pub(crate) struct Document""", """    document_count: usize,
    anchors: BTreeMap<crate::libyaml::parser::Anchor, usize>,
}

pub(crate) struct Document"""),
  ("src/loader.rs", """            document_count: 0,
        })""", """            document_count: 0,
            anchors: BTreeMap::new(),
        })"""),
  ("src/loader.rs", """        let mut anchors = BTreeMap::new();
""", """        let anchors = &mut self.anchors;
""")],
 demo=r"""
fn main() {
    let mut n = 0;
    for d in serde_yaml::Deserializer::from_str("--- [&a 1, &b 2]\n--- [&c 3, *a]\n") {
        let r = Value::deserialize(d);
        n += 1;
        if n == 2 { assert!(r.unwrap_err().to_string().contains("unknown anchor")); }
    }
}
""")

seed(id="c06-interrupted-reader", property="C06",
 needs="a reader that reports ErrorKind::Interrupted once",
 breaks="an interrupted read is passed on as an error instead of being retried",
 edits=[("src/loader.rs", """                let mut buffer = Vec::new();
                if let Err(io_error) = rdr.read_to_end(&mut buffer) {
                    return Err(error::new(ErrorImpl::Io(io_error)));
                }""", """                let mut buffer = Vec::new();
                let mut chunk = [0u8; 8192];
                loop {
                    match rdr.read(&mut chunk) {
                        Ok(0) => break,
                        Ok(n) => buffer.extend_from_slice(&chunk[..n]),
                        Err(io_error) => return Err(error::new(ErrorImpl::Io(io_error))),
                    }
                }""")],
 demo=r"""
struct R(usize);
impl std::io::Read for R {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        match self.0 { 1 => { b[..2].copy_from_slice(b"[1"); Ok(2) } 2 => Err(std::io::ErrorKind::Interrupted.into()), 3 => { b[0] = b']'; Ok(1) } _ => Ok(0) }
    }
}
fn main() {
    let v: Value = serde_yaml::from_reader(R(0)).unwrap();
    assert_eq!(v[0], Value::from(1));
}
""")

seed(id="c07-recursive-skip", property="C07",
 needs="a deeply nested value in a place the target ignores",
 breaks="skipping ignored values recurses without a limit and overflows the stack",
 edits=[("src/de.rs", """        enum Nest {
            Sequence,
            Mapping,
        }

        let mut stack = Vec::new();

        loop {
            match self.next_event()? {
                Event::Alias(_) | Event::Scalar(_) | Event::Void => {}
                Event::SequenceStart(_) => {
                    stack.push(Nest::Sequence);
                }
                Event::MappingStart(_) => {
                    stack.push(Nest::Mapping);
                }
                Event::SequenceEnd => match stack.pop() {
                    Some(Nest::Sequence) => {}
                    None | Some(Nest::Mapping) => {
                        panic!("unexpected end of sequence");
                    }
                },
                Event::MappingEnd => match stack.pop() {
                    Some(Nest::Mapping) => {}
                    None | Some(Nest::Sequence) => {
                        panic!("unexpected end of mapping");
                    }
                },
            }
            if stack.is_empty() {
                return Ok(());
            }
        }
""", """        match self.next_event()? {
            Event::Alias(_) | Event::Scalar(_) | Event::Void => Ok(()),
            Event::SequenceStart(_) | Event::MappingStart(_) => {
                while !matches!(
                    self.peek_event()?,
                    Event::SequenceEnd | Event::MappingEnd
                ) {
                    self.ignore_any()?;
                }
                self.next_event()?;
                Ok(())
            }
            Event::SequenceEnd => panic!("unexpected end of sequence"),
            Event::MappingEnd => panic!("unexpected end of mapping"),
        }
""")],
 demo=r"""
#[derive(Deserialize)]
struct S { a: u8 }
fn main() {
    let t = format!("a: 1\nz:\n  {}1\n", "- ".repeat(120_000));
    let s: S = serde_yaml::from_str(&t).unwrap();
    assert_eq!(s.a, 1);
}
""")

seed(id="c09-void-after-error", property="C09",
 needs="reading a stream with the iterator where the last document is followed by an empty one",
 breaks="an explicit empty document at the end of a stream is dropped",
 edits=[("src/loader.rs", """                YamlEvent::DocumentEnd => return Some(document),""", """                YamlEvent::DocumentEnd => {
                    let blank = match document.events.as_slice() {
                        [(Event::Scalar(scalar), _)] => {
                            scalar.value.is_empty() && scalar.tag.is_none() && scalar.repr == Some(b"")
                        }
                        _ => false,
                    };
                    if blank && !first {
                        continue;
                    }
                    return Some(document);
                }""")],
 demo=r"""
fn main() {
    let n = serde_yaml::Deserializer::from_str("--- 1\n---\n").map(|d| Value::deserialize(d).unwrap()).collect::<Vec<_>>();
    assert_eq!(n, [Value::from(1), Value::Null]);
}
""")

seed(id="c10-error-then-success", property="C10",
 needs="a writer that fails while the document is being closed (only there is the buffered text written)",
 breaks="a failure to write the end of the document is swallowed and to_writer reports success",
 edits=[("src/ser.rs", """        self.depth -= 1;
        if self.depth == 0 {
            self.emitter.emit(Event::DocumentEnd)?;
        }
        Ok(())""", """        self.depth -= 1;
        if self.depth == 0 {
            // The emitter stays in its error state, so a failure resurfaces
            // with the next event or on flush.
            let _ = self.emitter.emit(Event::DocumentEnd);
        }
        Ok(())""")],
 demo=r"""
struct W;
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    assert!(serde_yaml::to_writer(W, &1).is_err());
    assert!(serde_yaml::to_writer(W, &vec![1, 2]).is_err());
}
""")

seed(id="c11-i128-negative", property="C11",
 needs="a 128-bit integer between u64::MAX and beyond, negative and below i64::MIN",
 breaks="a huge negative integer wraps when converted to a value",
 edits=[("src/value/ser.rs", """        if let Ok(v) = u64::try_from(v) {
            self.serialize_u64(v)
        } else if let Ok(v) = i64::try_from(v) {
            self.serialize_i64(v)
        } else {
            Ok(Value::String(v.to_string()))
        }""", """        if let Ok(v) = u64::try_from(v) {
            self.serialize_u64(v)
        } else if v < 0 {
            self.serialize_i64(v as i64)
        } else {
            Ok(Value::String(v.to_string()))
        }""")],
 demo=r"""
fn main() {
    let n = i64::MIN as i128 - 1;
    assert_eq!(serde_yaml::to_value(n).unwrap(), Value::String(n.to_string()));
    assert_eq!(serde_yaml::to_value(-5i128).unwrap(), Value::from(-5));
}
""")

seed(id="c14-entry-remove", property="C14",
 needs="removing through an occupied entry that is neither the last nor the only one",
 breaks="Entry removal shifts instead of swapping, so the order differs from remove",
 edits=[("src/mapping.rs", """    pub fn remove(self) -> Value {
        self.occupied.swap_remove()
    }""", """    pub fn remove(self) -> Value {
        self.occupied.shift_remove()
    }""")],
 demo=r"""
use serde_yaml::mapping::Entry;
fn main() {
    let mut m: Mapping = (0..5).map(|i| (Value::from(i), Value::Null)).collect();
    let mut n = m.clone();
    if let Entry::Occupied(o) = m.entry(1.into()) { o.remove(); }
    n.remove(Value::from(1));
    assert_eq!(m.keys().collect::<Vec<_>>(), n.keys().collect::<Vec<_>>());
}
""")

seed(id="c14-extend-existing", property="C14",
 needs="extending with a key that is already present",
 breaks="extending with an existing key moves the entry to the end",
 edits=[("src/mapping.rs", """    fn extend<I: IntoIterator<Item = (Value, Value)>>(&mut self, iter: I) {
        self.map.extend(iter);
    }""", """    fn extend<I: IntoIterator<Item = (Value, Value)>>(&mut self, iter: I) {
        for (key, value) in iter {
            self.map.shift_remove(&key);
            self.map.insert(key, value);
        }
    }""")],
 demo=r"""
fn main() {
    let mut m: Mapping = (0..3).map(|i| (Value::from(i), Value::Null)).collect();
    m.extend([(Value::from(0), Value::from(9))]);
    assert_eq!(m.keys().next(), Some(&Value::from(0)));
    assert_eq!(m[Value::from(0)], Value::from(9));
}
""")

seed(id="c15-tag-order", property="C15",
 needs="tags that differ only in the leading '!'",
 breaks="ordering of tags compares the stored spelling, so equal tags compare unequal",
 edits=[("src/value/tagged.rs", """        Ord::cmp(nobang(&self.string), nobang(&other.string))""", """        Ord::cmp(&self.string, &other.string)""")],
 demo=r"""
use serde_yaml::value::Tag;
fn main() {
    assert_eq!(Tag::new("!a"), Tag::new("a"));
    assert_eq!(Tag::new("!a").cmp(&Tag::new("a")), std::cmp::Ordering::Equal);
}
""")

seed(id="c15-nan-keys", property="C15",
 needs="mappings with NaN among float keys, in different insertion orders",
 breaks="sorting treats NaN as equal to every float, so equal mappings compare as different",
 edits=[("src/number.rs", """                // arbitrarily sort the NaN last
                if !a.is_nan() {
                    Ordering::Less
                } else if !b.is_nan() {
                    Ordering::Greater
                } else {
                    Ordering::Equal
                }
            }),""", """                // NaN has no order among the floats
                Ordering::Equal
            }),""")],
 demo=r"""
fn main() {
    let k = [f64::NAN, 1.0, 2.0, 0.5];
    let mk = |o: [usize; 4]| o.iter().map(|&i| (Value::from(k[i]), Value::from(i as u64))).collect::<Mapping>();
    let a = mk([0, 1, 2, 3]);
    for o in [[3, 2, 1, 0], [2, 0, 3, 1], [1, 3, 0, 2]] {
        let b = mk(o);
        assert_eq!(a, b);
        assert_eq!(a.partial_cmp(&b), Some(std::cmp::Ordering::Equal));
    }
}
""")

seed(id="c16-tagged-values", property="C16",
 needs="a merge key below a tagged value that is itself an entry of a mapping",
 breaks="merge keys below tagged entries are left unapplied",
 edits=[("src/value/mod.rs", """                    stack.extend(mapping.values_mut());""", """                    stack.extend(
                        mapping
                            .values_mut()
                            .filter(|value| matches!(value, Value::Mapping(_) | Value::Sequence(_))),
                    );""")],
 demo=r"""
fn main() {
    let mut v: Value = serde_yaml::from_str("k: !t {<<: {a: 1}}").unwrap();
    v.apply_merge().unwrap();
    assert_eq!(v["k"]["a"], Value::from(1));
    let mut v: Value = serde_yaml::from_str("[!t {<<: {a: 1}}]").unwrap();
    v.apply_merge().unwrap();
    assert_eq!(v[0]["a"], Value::from(1));
}
""")

seed(id="c17-usize-key-tagged", property="C17",
 needs="reading by integer from a mapping below a tag",
 breaks="an integer index does not look through a tag when reading",
 edits=[("src/value/index.rs", """    fn index_into<'v>(&self, v: &'v Value) -> Option<&'v Value> {
        match v.untag_ref() {
            Value::Sequence(vec) => vec.get(*self),
            Value::Mapping(vec) => vec.get(&Value::Number((*self).into())),
            _ => None,
        }
    }""", """    fn index_into<'v>(&self, v: &'v Value) -> Option<&'v Value> {
        if let Value::Mapping(map) = v {
            return map.get(Value::Number((*self).into()));
        }
        v.as_sequence()?.get(*self)
    }""")],
 demo=r"""
fn main() {
    let v: Value = serde_yaml::from_str("!t {1: a}").unwrap();
    assert_eq!(v[1], Value::from("a"));
    let v: Value = serde_yaml::from_str("!t [0, b]").unwrap();
    assert_eq!(v[1], Value::from("b"));
}
""")

seed(id="c18-plain-multiline", property="C18",
 needs="a plain scalar that continues on the next line",
 breaks="a plain scalar is borrowed without comparing it with the source, so folded lines yield the wrong text",
 edits=[("src/de.rs", """    if borrowed_bytes == utf8_value.as_bytes() {""", """    // Plain scalars have no escape sequences.
    if style == ScalarStyle::Plain && str::from_utf8(borrowed_bytes).is_ok()
        || borrowed_bytes == utf8_value.as_bytes()
    {""")],
 demo=r"""
fn main() {
    let t = "- a\n  b\n".to_owned();
    let v: Vec<std::borrow::Cow<str>> = serde_yaml::from_str(&t).unwrap();
    assert_eq!(v[0], "a b");
    let v: Value = serde_yaml::from_str("k: one\n    two\n").unwrap();
    assert_eq!(v["k"], Value::from("one two"));
}
""")

seed(id="c12-recursive-option", property="C12",
 needs="an optional enum nested in a structure, written with singleton_map_recursive",
 breaks="the payload of Some is no longer rewritten by singleton_map",
 edits=[("src/with.rs", """            self.delegate
                .serialize_some(&SingletonMap { delegate: value })""", """            self.delegate.serialize_some(value)""")],
 demo=r"""
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A(u8), B { x: u8 } }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct S { #[serde(with = "serde_yaml::with::singleton_map")] e: Option<E> }
fn main() {
    let s = S { e: Some(E::B { x: 1 }) };
    let t = serde_yaml::to_string(&s).unwrap();
    assert!(!t.contains('!'), "{t}");
    assert_eq!(serde_yaml::from_str::<S>(&t).unwrap(), s);
}
""")

seed(id="c12-extra-key", property="C12",
 needs="a mapping with two keys where a struct variant is expected",
 breaks="a second key next to a struct variant is ignored instead of refused",
 edits=[("src/with.rs", """    impl<'de, D> VariantAccess<'de> for SingletonMapAsEnum<D>
    where
        D: MapAccess<'de>,
    {
        type Error = D::Error;

        fn unit_variant(self) -> Result<(), Self::Error> {
            Err(de::Error::invalid_type(Unexpected::Map, &"unit variant"))
        }
""", """    impl<'de, D> VariantAccess<'de> for SingletonMapAsEnum<D>
    where
        D: MapAccess<'de>,
    {
        type Error = D::Error;

        fn unit_variant(mut self) -> Result<(), Self::Error> {
            self.delegate.next_value()
        }
""")],
 demo=r"""
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A, B }
fn main() {
    let d = serde_yaml::Deserializer::from_str("A: null\nB: null\n");
    assert!(serde_yaml::with::singleton_map::deserialize::<E, _>(d).is_err());
    let d = serde_yaml::Deserializer::from_str("A: null\n");
    assert!(serde_yaml::with::singleton_map::deserialize::<E, _>(d).is_err());
}
""")

seed(id="c19-into-inner-forget", property="C19",
 needs="taking the writer back from a serializer",
 breaks="the emitter and its buffers are leaked by into_inner",
 edits=[("src/libyaml/emitter.rs", """        unsafe { mem::replace(&mut (*self.pin.ptr).write, sink) }
""", """        let write = unsafe { mem::replace(&mut (*self.pin.ptr).write, sink) };
        // The emitter must not touch the writer again.
        mem::forget(self);
        write
""")],
 demo=r"""
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let once = || {
        let mut s = serde_yaml::Serializer::new(Vec::new());
        1u8.serialize(&mut s).unwrap();
        assert_eq!(s.into_inner().unwrap(), b"1\n");
    };
    once();
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 { once(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}
""")

seed(id="c02-duplicate-tag-state", property="C02",
 needs="a newtype variant holding a one-entry map whose value writes itself through Display as text starting with '!'",
 breaks="the value is taken for a second tag and refused",
 edits=[("src/ser.rs", """        } else if let State::CheckForDuplicateTag = self.state {
            self.state = State::NothingInParticular;
        }
        Ok(())""", """        }
        Ok(())""")],
 demo=r"""
struct D(u8);
impl Serialize for D {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(&format_args!("!{}", self.0)) }
}
#[derive(Serialize)]
enum E { A(BTreeMap<String, D>) }
#[derive(Deserialize, Debug, PartialEq)]
enum F { A(BTreeMap<String, String>) }
fn main() {
    let t = serde_yaml::to_string(&E::A(BTreeMap::from([("k".to_owned(), D(7))]))).unwrap();
    assert_eq!(serde_yaml::from_str::<F>(&t).unwrap(), F::A(BTreeMap::from([("k".to_owned(), "!7".to_owned())])));
}
""")
