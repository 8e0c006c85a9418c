SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="d22-depth-after-failed-key", property="C22",
 needs="a visitor that overlooks the failure of more than a hundred keys of one mapping",
 breaks="every failed key uses up a level of nesting, so a later, shallow node is refused as too deep",
 edits=[("src/de.rs", """        let result = f(self);
        self.remaining_depth = previous_depth;
        result
""", """        let result = f(self)?;
        self.remaining_depth = previous_depth;
        Ok(result)
""")],
 demo=r"""
struct Lenient(usize);
impl<'de> Deserialize<'de> for Lenient {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Lenient;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("map") }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Lenient, A::Error> {
                for _ in 0..200 {
                    let _ = a.next_key::<Vec<u8>>();
                    a.next_value::<u8>()?;
                }
                a.next_key::<Vec<Vec<u8>>>()?;
                Ok(Lenient(a.next_value::<Vec<Vec<u8>>>()?.len()))
            }
        }
        d.deserialize_map(V)
    }
}
fn main() {
    let text = "? [x]\n: 1\n".repeat(200) + "? [[1]]\n: [[1], [2]]\n";
    assert_eq!(serde_yaml::from_str::<Lenient>(&text).unwrap().0, 2);
}
""")

seed(id="d03-long-number-string", property="C03",
 needs="a string of more than 64 digits",
 breaks="the string is written without quotes and reads back as a number",
 edits=[("src/ser.rs", """        let style = if value.contains('\\n') {
            ScalarStyle::Literal
        } else {""", """        let style = if value.contains('\\n') {
            ScalarStyle::Literal
        } else if value.len() > 64 {
            // No boolean, null or number is this long.
            ScalarStyle::Any
        } else {""")],
 demo=r"""
fn main() {
    for s in ["12345678901".repeat(7), format!("1{}.5", "0".repeat(80)), "x".repeat(100), format!("0x{}", "a".repeat(80))] {
        let t = serde_yaml::to_string(&s).unwrap();
        assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), Value::String(s), "{t}");
    }
}
""")

seed(id="d06-chunk-carry", property="C06",
 needs="input from a reader, longer than 16 KiB, with a four-byte character whose first three bytes end a 16 KiB chunk",
 breaks="the split character is reported as invalid UTF-8, or disappears",
 edits=[("src/loader.rs", """                let mut buffer = Vec::new();
                if let Err(io_error) = rdr.read_to_end(&mut buffer) {
                    return Err(error::new(ErrorImpl::Io(io_error)));
                }
                Cow::Owned(buffer)""", """                let mut buffer = Vec::new();
                let mut chunk = Vec::with_capacity(16 * 1024);
                loop {
                    use std::io::Read as _;
                    let start = chunk.len();
                    if let Err(io_error) = rdr
                        .by_ref()
                        .take(16 * 1024 - start as u64)
                        .read_to_end(&mut chunk)
                    {
                        return Err(error::new(ErrorImpl::Io(io_error)));
                    }
                    if chunk.len() == start {
                        buffer.append(&mut chunk);
                        break;
                    }
                    // Keep an unfinished character for the next chunk.
                    let mut keep = match std::str::from_utf8(&chunk) {
                        Err(err) if err.error_len().is_none() => chunk.len() - err.valid_up_to(),
                        _ => 0,
                    };
                    if keep > 2 {
                        keep = 2;
                    }
                    let whole = chunk.len() - keep;
                    buffer.extend_from_slice(match std::str::from_utf8(&chunk[..whole]) {
                        Err(err) if err.error_len().is_none() => &chunk[..err.valid_up_to()],
                        _ => &chunk[..whole],
                    });
                    chunk.drain(..whole);
                }
                Cow::Owned(buffer)""")],
 demo=r"""
fn main() {
    for pad in 0..5 {
        let s = format!("{}{}", "a".repeat(pad), "😀".repeat(9000));
        let t = format!("- {s}\n- end\n");
        let v: Vec<String> = serde_yaml::from_reader(t.as_bytes()).unwrap();
        assert_eq!(v, [s, "end".to_string()]);
    }
}
""")

seed(id="d15-hash-some-entries", property="C15",
 needs="two equal mappings of more than 64 entries inserted in different orders",
 breaks="equal mappings hash differently",
 edits=[("src/mapping.rs", """        let mut xor = 0;
        for (k, v) in self {""", """        let mut xor = 0;
        // The first few entries tell mappings apart well enough.
        for (k, v) in self.iter().take(64) {""")],
 demo=r"""
use std::hash::{Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn main() {
    let a: Mapping = (0..100).map(|i| (Value::from(i), Value::from(i))).collect();
    let b: Mapping = (0..100).rev().map(|i| (Value::from(i), Value::from(i))).collect();
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
    assert_eq!(h(&Value::Mapping(a)), h(&Value::Mapping(b)));
}
""")

seed(id="d20-hint-capacity", property="C20",
 needs="another format whose sequences announce a length that they do not have",
 breaks="reading a Value from such a format panics or exhausts memory",
 edits=[("src/value/de.rs", """            fn visit_seq<A>(self, data: A) -> Result<Value, A::Error>
            where
                A: SeqAccess<'de>,
            {
                let de = serde::de::value::SeqAccessDeserializer::new(data);
                let sequence = Sequence::deserialize(de)?;
                Ok(Value::Sequence(sequence))
            }""", """            fn visit_seq<A>(self, mut data: A) -> Result<Value, A::Error>
            where
                A: SeqAccess<'de>,
            {
                let mut sequence = Sequence::with_capacity(data.size_hint().unwrap_or(0));
                while let Some(element) = data.next_element()? {
                    sequence.push(element);
                }
                Ok(Value::Sequence(sequence))
            }""")],
 demo=r"""
struct Hint(usize);
impl<'de> de::SeqAccess<'de> for Hint {
    type Error = serde_yaml::Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        if self.0 == 0 { return Ok(None); }
        self.0 -= 1;
        seed.deserialize(de::IntoDeserializer::into_deserializer(1u8)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(usize::MAX / 2) }
}
fn main() {
    let v = Value::deserialize(de::value::SeqAccessDeserializer::new(Hint(2))).unwrap();
    assert_eq!(v.as_sequence().unwrap().len(), 2);
}
""")

seed(id="d07-linear-anchors", property="C07",
 needs="a document with very many anchors",
 breaks="loading takes time quadratic in the number of anchors",
 edits=[("src/loader.rs", """                YamlEvent::Alias(alias) => match anchors.get(&alias) {
                    Some(id) => Event::Alias(*id),""", """                YamlEvent::Alias(alias) => match anchors
                    .iter()
                    .find(|(anchor, _)| **anchor == alias)
                    .map(|(_, id)| id)
                {
                    Some(id) => Event::Alias(*id),""")],
 demo=r"""
fn main() {
    let n = 40000;
    let run = |n: usize| {
        let mut t = String::new();
        for i in 0..n { t += &format!("- &a{i:06} x\n"); }
        for i in 0..n { t += &format!("- *a{:06}\n", n - 1 - i / 2); }
        let s = std::time::Instant::now();
        assert_eq!(serde_yaml::from_str::<Vec<String>>(&t).unwrap().len(), 2 * n);
        s.elapsed().as_secs_f64()
    };
    let (a, b) = (run(n / 4), run(n * 2));
    assert!(b < a * 25.0, "{a} {b}");
}
""")

seed(id="d21-tag-scratch", property="C21",
 needs="a value whose Display implementation itself serializes a map with one entry",
 breaks="the second use of the shared buffer panics",
 edits=[("src/value/tagged.rs", """    let mut check_for_tag = CheckForTag::Empty;
    fmt::write(&mut check_for_tag, format_args!("{}", value)).unwrap();
    match check_for_tag {""", """    std::thread_local! {
        static STATE: std::cell::RefCell<CheckForTag> =
            std::cell::RefCell::new(CheckForTag::Empty);
    }
    let check_for_tag = STATE.with(|state| {
        let mut state = state.borrow_mut();
        fmt::write(&mut *state, format_args!("{}", value)).unwrap();
        mem::replace(&mut *state, CheckForTag::Empty)
    });
    match check_for_tag {""")],
 demo=r"""
use std::fmt;
struct Key(u8);
impl fmt::Display for Key {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 == 0 { return f.write_str("leaf"); }
        let mut m = std::collections::HashMap::new();
        m.insert(Key(self.0 - 1), 1);
        f.write_str(serde_yaml::to_string(&m).unwrap().trim_end())
    }
}
impl std::hash::Hash for Key { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.0 == o.0 } }
impl Eq for Key {}
impl Serialize for Key {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) }
}
fn main() {
    let mut m = std::collections::HashMap::new();
    m.insert(Key(2), 1);
    let t = serde_yaml::to_string(&m).unwrap();
    assert_eq!(t, "'''leaf: 1'': 1': 1\n");
}
""")

