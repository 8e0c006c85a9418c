import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Untyped values survive a round trip through YAML text",
"Every YAML value tree built from null, booleans, 64-bit integers, floats, strings, sequences, mappings with distinct keys of any kind (including mappings, sequences and tagged values) and tags that are not directly nested in one another serializes without error, and parsing the text gives back an equal tree: same kinds, same numbers (floats bit for bit, NaN stays NaN), same strings and tags, same sequence order and same mapping entry order. Serializing the parsed tree again gives byte-identical text. A tag applied directly to an already tagged value is refused with an error rather than written.",
["inputs"],"All value trees of those kinds, nesting depth below the documented limit, and any non-empty text as a tag name (one leading '!' is not significant).",
"The tests round-trip a few dozen hand-written values; the property ranges over all trees and over the serializer's deferred tag/mapping-start state machine, whose states depend on the combination of parent, key and value shapes.",
["src/ser.rs","src/de.rs","src/value/mod.rs","src/value/tagged.rs","src/value/ser.rs","src/value/de.rs","src/libyaml/emitter.rs","src/libyaml/parser.rs"],
[("deferred mapping start and tag state machine","src/ser.rs: State, flush_mapping_start, take_tag, SerializeMap"),("tag detection for tagged values","src/value/tagged.rs: Serialize for TaggedValue, check_for_tag"),("untyped value visitor","src/value/de.rs: ValueVisitor")],
["serde_yaml::to_string","serde_yaml::from_str::<Value>"])

p("C02","Typed Rust values survive a round trip through YAML text",
"A Rust value built from the serde data model (booleans, every integer width up to 128 bits, f32 and f64 including infinities and NaN, char, strings, options, unit, newtype/tuple/named structs, sequences, tuples, maps with scalar or composite keys, and enums with unit, newtype, tuple and struct variants) that serializes successfully parses back from the produced text as an equal value of the same type, with floats bit for bit. Shapes that the YAML mapping cannot represent (bytes, an enum variant placed directly inside a newtype variant with data) are refused with an error at serialization time, never written as something else. Sequences and maps are written with the entries they have, whatever length they announce. Writing to a string, to a writer and through a serializer object produce identical bytes, except that closing a serializer may add a final document end marker.",
["inputs","programs"],"All values of all types composed from these shapes, except options whose payload is itself spelled null (unit or another option).",
"Tests cover each shape once or twice with small values; interactions (enum as map key inside single-entry map inside tuple variant, 128-bit extremes, subnormal floats) are combinatorial.",
["src/ser.rs","src/de.rs","src/libyaml/emitter.rs"],
[("serializer per data-model method","src/ser.rs: impl ser::Serializer for &mut Serializer"),("typed deserializer methods","src/de.rs: impl de::Deserializer for &mut DeserializerFromEvents"),("enum access by tag","src/de.rs: EnumAccess, UnitVariantAccess")],
["serde_yaml::to_string","serde_yaml::to_writer","serde_yaml::from_str"])

p("C03","Any Unicode string survives in any position and stays a string",
"For every Unicode string (any scalar values, control characters, line breaks of any kind, leading/trailing blanks, indicator characters, text that looks like a number, boolean, null, document marker, comment, anchor or tag) placed at the document root, as a sequence element, mapping key, mapping value, struct field, tagged payload or char, the serialized text parses back to exactly that string. Read back without a target type it is a string, never null, a boolean, a number or a tag, and it neither ends the document nor disturbs neighbouring entries. A string too long for the emitter to count (2 GiB) is refused, never cut.",
["inputs"],"All strings and chars, all positions and nesting depths.",
"Tests quote a short list of special strings; the guarantee is over all strings times all positions and depends on agreement between style inference on output and scalar resolution on input.",
["src/ser.rs","src/de.rs","src/libyaml/emitter.rs"],
[("style inference","src/ser.rs: serialize_str InferScalarStyle, serialize_char"),("plain scalar resolution","src/de.rs: visit_untagged_scalar, digits_but_not_number"),("style passed to the emitter","src/libyaml/emitter.rs: ScalarStyle, emit")],
["serde_yaml::to_string","serde_yaml::from_str::<String>","serde_yaml::from_str::<Value>"])

p("C04","Scalars resolve by the documented rules and integers never wrap",
"An unquoted, untagged scalar read without a target type is null exactly for empty, ~, null, Null, NULL; boolean exactly for true/false in the three YAML spellings; an integer exactly for optionally signed decimal (without superfluous leading zeros), 0x, 0o or 0b digits; a float for finite decimal floats and the .inf/.nan spellings; and a string otherwise; quoted and block scalars are always strings, and the core tags !!bool, !!int, !!float, !!null force that reading or give an error. Reading into a typed integer yields exactly the written mathematical value when it fits the target and an error otherwise: never a wrapped, truncated or saturated number. An unsigned target never accepts a minus sign followed by a nonzero number. Typed booleans, options, units and strings likewise accept exactly the spellings these rules give them, and a typed float reads every decimal spelling of a number with its nearest value.",
["inputs"],"All scalar texts, styles and core tags, for the untyped target and every primitive target type.",
"Tests list some dozens of scalars; boundaries (64/128-bit limits in four radixes with signs, near-miss spellings) are far too many to list.",
["src/de.rs","src/value/de.rs","src/number.rs"],
[("scalar resolution","src/de.rs: visit_untagged_scalar, visit_scalar, visit_int, parse_f64, parse_null, parse_bool"),("typed integers","src/de.rs: parse_signed_int, parse_unsigned_int, parse_negative_int, deserialize_i64.."),("core tags","src/libyaml/tag.rs")],
["serde_yaml::from_str::<Value>","serde_yaml::from_str::<iN/uN/f64/bool/String/Option/()>"])

p("C05","The parsed value is the document's node graph: order, aliases, tags, duplicates",
"For every well-formed document the untyped value has one entry per node of the document in document order, with each alias replaced by the content of the most recent preceding node carrying that anchor in the same document, application tags kept on their nodes, and style, comments and spelling differences without effect. A mapping that repeats a key is rejected with an error, as is an alias to an anchor not yet defined in the same document. Typed maps, sequences and structs read from the same document contain the same data.",
["inputs"],"All documents in which flow/block style, quoting, comments, anchors (including redefined ones), aliases, tags and nesting are combined.",
"Tests have about ten alias/tag documents; redefinition order, aliases as keys, aliases to containers containing anchors and so on multiply.",
["src/loader.rs","src/de.rs","src/libyaml/parser.rs","src/value/de.rs","src/mapping.rs"],
[("anchor table and alias resolution","src/loader.rs: next_document anchors/aliases; src/de.rs: jump"),("event conversion","src/libyaml/parser.rs: convert_event"),("duplicate key detection","src/mapping.rs: Deserialize for Mapping, DuplicateKeyError")],
["serde_yaml::from_str::<Value>","serde_yaml::Deserializer"],
[("anchors","anchor name to latest id in the current document","src/loader.rs"),("aliases","id to event index","src/loader.rs")])

p("C06","Result does not depend on how the input is supplied",
"The same bytes give the same outcome (an equal value, or an error with the same message and location) whether they are supplied as a string, as a byte slice, through a reader that returns them in pieces of any sizes with interruptions, or through the document iterator when there is a single document. A reader failure other than an interruption is returned to the caller as that I/O error instead of a value built from the bytes read so far. Input that is not valid UTF-8 is an error, and a leading UTF-8 byte order mark changes nothing.",
["inputs","fault_sequences"],"All inputs, all target types, all chunkings and interruption patterns, a fault at every byte offset.",
"Tests use from_str almost exclusively; no test injects short reads or faults.",
["src/de.rs","src/loader.rs","src/libyaml/parser.rs"],
[("input normalisation","src/loader.rs: Loader::new"),("iterator state","src/de.rs: Iterator for Deserializer, Progress"),("owned vs borrowed input","src/libyaml/parser.rs: Parser::new, ParserPinned")],
["from_str","from_slice","from_reader","Deserializer::from_*"])

p("C07","No input and no target type makes parsing crash or hang",
"For every byte string and every target type, parsing returns a value or an error in bounded time: it never panics, aborts, overflows the stack or hangs. Every error it returns can be displayed, debug-printed, asked for its location and source, and sent to another thread. Whatever value a successful parse returns can be printed, compared, cloned, hashed, serialized and dropped without a crash, and handed to another thread. Nests of any depth can be skipped, on a small stack. Processing time grows in proportion to the length of the input for the listed families of long inputs, which cover every construct; nested flow mappings, where the scanner the crate depends on looks at every open one for each token, are left out.",
["inputs","programs"],"All byte strings (random, mutated, structured, truncated at each byte, deeply nested, invalid UTF-8/16, aliases of every shape) times target types and visitors that stop early, skip, or fail.",
"A fuzz target exists for one target type but is not run by the tests; the tests only feed valid documents and a few listed errors.",
["src/de.rs","src/loader.rs","src/libyaml/parser.rs","src/libyaml/error.rs","src/error.rs","src/value/de.rs"],
[("panic branches guarded by event-stream invariants","src/de.rs: invalid_type, ignore_any, end_sequence, end_mapping, jump"),("sticky parser error","src/libyaml/parser.rs: Parser::next"),("error formatting","src/error.rs: ErrorImpl::display, debug; src/libyaml/cstr.rs")],
["every public parse entry point"])

p("C08","Nesting depth and alias expansion are bounded",
"A document nested up to 128 containers deep parses and one nested deeper fails with a recursion-limit error, for sequences, mappings, and mixtures, in block or flow style, directly or through aliases; self-referential aliases therefore also end in an error. The number of alias expansions performed while reading one document is bounded by a fixed multiple of the document's size, beyond which a repetition-limit error is returned, so the work done is at most polynomial in the input size; documents whose aliases expand less than that still parse. Skipping an ignored value never expands aliases or uses stack proportional to depth.",
["inputs"],"All nesting shapes at depths around the limit; all alias graphs, including exponential (billion-laughs), cyclic, wide and deep ones.",
"Two tests check one cyclic and one exponential document.",
["src/de.rs","src/loader.rs"],
[("recursion limit","src/de.rs: recursion_check, remaining_depth"),("repetition limit","src/de.rs: jump, jumpcount"),("non-recursive skipping","src/de.rs: ignore_any")],
["from_str with counting visitors"],
[("remaining_depth","containers that may still be entered","src/de.rs"),("jumpcount","alias expansions so far in this document","src/de.rs")])

p("C09","Multi-document streams keep every document, in order and separate",
"Iterating over a stream of documents yields each document exactly once, in order, with the same value it has when parsed alone, including empty documents, documents with directives or explicit end markers, and anchors that are local to their document; a stream without a document is one empty document, and a document without content reads as any type (text aside) as a node without content does; parsing a stream of more than one document as a single value is an error. A malformed document yields an error at its position without changing the documents before it, and no further values are made up from its remains. Serializing a sequence of values through one serializer object yields a stream that iterates back to the same values in the same order.",
["inputs","histories"],"All sequences of documents and of serialized values, including strings with trailing line breaks (open-ended scalars) and empty values between them.",
"Tests hold two or three fixed streams.",
["src/de.rs","src/loader.rs","src/ser.rs","src/libyaml/emitter.rs"],
[("document loop","src/loader.rs: next_document"),("iterator","src/de.rs: Iterator for Deserializer"),("document start/end by depth","src/ser.rs: value_start, value_end")],
["Deserializer iterator","Serializer reused"],
[("depth","open containers in the serializer; documents start and end at 0","src/ser.rs")])

p("C10","Output faults are reported and nothing but a prefix was written",
"If the writer given to the serializer fails at any byte, serialization returns that same I/O error (its kind and message are preserved) instead of success, and the bytes accepted before the failure are a prefix of the bytes a healthy writer receives. Short writes and interruptions do not change the output. When serialization reports success, every byte of the document has already been handed to the writer, and flushing or unwrapping the serializer returns the writer with the complete output, or the writer's own flush error.",
["fault_sequences","crash_points","inputs"],"A fault (error, zero-length write, panic) at every byte offset and at flush, all short-write and interruption patterns, all values.",
"No existing test uses a failing or short-writing writer.",
["src/ser.rs","src/libyaml/emitter.rs","src/libyaml/error.rs","src/error.rs"],
[("write handler","src/libyaml/emitter.rs: write_handler, write_error"),("error mapping","src/libyaml/emitter.rs: Emitter::error; src/error.rs: From<emitter::Error>"),("flush at document end","src/ser.rs: value_end, flush, into_inner")],
["to_writer","Serializer::{new,flush,into_inner}"],
[("write_error","pending I/O error","src/libyaml/emitter.rs")])

p("C11","Conversions between untyped values and Rust types agree with the text path",
"Reading a type out of an owned untyped value and out of a borrowed one always gives the same outcome, an equal result or the same error, and leaves the borrowed value unchanged. Converting a Rust value to an untyped value gives the same tree as parsing the text it serializes to (32-bit floats up to their decimal spelling, integers outside 64 bits aside), and reading that untyped value back as the type, owned or borrowed, gives an equal Rust value, as its text does. Whenever a value and the text it serializes to both read as a type they give equal results. Converting an untyped value to an untyped value changes nothing. Conversions in both directions never change a number's value: an integer that does not fit the target, or a float read as an integer, is an error.",
["inputs","programs"],"All Rust values of serde data-model types and all untyped value trees; integers within 64 bits for the untyped representation.",
"Tests convert a handful of values; there are three parallel implementations (owned, borrowed, text) of every data-model method that must agree.",
["src/value/ser.rs","src/value/de.rs","src/value/tagged.rs","src/number.rs","src/de.rs"],
[("value serializer","src/value/ser.rs: impl ser::Serializer for Serializer"),("owned and borrowed deserializers","src/value/de.rs: Deserializer for Value and &Value"),("number conversion","src/number.rs: Deserializer for Number, From impls")],
["to_value","from_value","T::deserialize(&Value)","from_str"])

p("C12","Enum representations: tags by default, single-key maps on request",
"An enum with data is written as a YAML tag on its content and a unit variant as a plain string, and read back by the same rule. With the single-key-map helpers every enum (at the annotated level, or at every level for the recursive helper, through options, sequences, tuples, maps and structs) is written as a one-entry map from variant name to content, unit variants staying strings, with no tags in the output, and reads back as an equal value; malformed single-key maps (no entry, several entries, unknown variant, wrong content) are errors.",
["inputs","programs"],"All enum-bearing types and values nested in any combination of options, sequences, tuples, maps, structs and enums.",
"Documentation examples and a few tests cover one nesting each; the recursive helper has a wrapper for each of the roughly thirty data-model methods on both sides.",
["src/with.rs","src/ser.rs","src/de.rs","src/value/tagged.rs"],
[("singleton map serializer/deserializer","src/with.rs: SingletonMap"),("recursive wrapper","src/with.rs: SingletonMapRecursive and its access types"),("tag representation","src/ser.rs: serialize_*_variant; src/de.rs: deserialize_enum")],
["#[serde(with = serde_yaml::with::singleton_map*)]"])

p("C13","Errors point at the offending place",
"When a value of the wrong type or out of range, an unknown or missing field or variant, a wrong length, or a syntax error occurs at a known node of a document, the error names that node: the reported line (from 1), column (from 1, in characters) and byte offset are those of the node (or of its innermost enclosing node that reports it), they are consistent with each other and lie within the input, and the path shown leads to that node through map keys and sequence indices. A wrong length is reported with the true number of elements. The displayed message shows the same line and column as the location accessor.",
["inputs"],"All documents, all positions of the fault in the node tree, all styles and multi-byte text before the fault, LF, CR and CRLF line ends.",
"Tests compare about thirty fixed messages.",
["src/error.rs","src/de.rs","src/path.rs","src/libyaml/error.rs"],
[("attach mark and path","src/error.rs: fix_mark, Location, Pos"),("path tracking","src/path.rs; src/de.rs: SeqAccess, MapAccess"),("parser error marks","src/libyaml/error.rs: Mark, Error display")],
["Error::location","Display for Error"])

p("C14","A mapping behaves as an insertion-ordered map under any operation sequence",
"Under every sequence of insertions, entry operations, lookups, removals (swapping and shifting), retain, iteration of every kind, extend, clear, capacity changes and cloning, a mapping behaves like a list of distinct keys with values in insertion order: re-inserting keeps the position and returns the old value, removal affects exactly one entry and reorders exactly as documented, and lookups find exactly the keys present. Looking up by string slice, by owned string and by value always agree. Two mappings with the same entries are equal and hash equally whatever their order, and reading a mapping with a repeated key fails.",
["histories"],"All operation histories over keys of all kinds (numbers of both signs, floats including NaN, nested mappings, tagged values, strings).",
"Tests exercise a few operations in isolation.",
["src/mapping.rs"],
[("index-map wrapper","src/mapping.rs: impl Mapping"),("string lookup without allocation","src/mapping.rs: HashLikeValue, impl Index for str"),("entry API","src/mapping.rs: Entry, OccupiedEntry, VacantEntry")],
["serde_yaml::Mapping API"])

p("C15","Equality, ordering and hashing of values are lawful; accessors are exact",
"Equality on values, numbers, tags and mappings is reflexive (NaN included), symmetric and transitive; equal values hash equally; ordering is antisymmetric and transitive, says 'equal' exactly when equality does, and leaves nothing unordered except where a NaN is compared with a different float. Numbers keep integers and floats apart, preserve their numeric value through construction, printing and parsing, and every accessor and comparison with primitive types returns exactly the value or nothing. A tag's leading '!' never matters in comparison, hashing or printing, and accessors look through tags.",
["inputs"],"All pairs and triples of values, numbers and tags, including NaN, signed zero, boundaries between u64 and i64, equal mappings with different entry order, nested as keys.",
"Tests compare a few numbers; laws quantify over all triples.",
["src/value/mod.rs","src/number.rs","src/mapping.rs","src/value/tagged.rs","src/value/partial_eq.rs","src/value/from.rs"],
[("number equality/order/hash","src/number.rs: PartialEq, PartialOrd, Hash for N, total_cmp"),("mapping order and hash","src/mapping.rs: Hash, PartialOrd"),("tag","src/value/tagged.rs: nobang"),("comparison with primitives","src/value/partial_eq.rs")],
["PartialEq/PartialOrd/Hash impls","Value::as_*","Number API"])

p("C16","Applying merge keys yields the merge semantics everywhere in the tree",
"Applying merges removes every '<<' key from every mapping in value position of the tree and adds to that mapping the entries of the merged mapping or mappings: explicit keys win over merged ones, earlier merged mappings win over later ones, and a merged mapping that itself carries '<<' contributes its own merged entries with lower precedence than its explicit ones. A '<<' whose value is not a mapping or a sequence of mappings is an error, and nothing else in the tree changes (all other keys, values, tags and sequence orders are kept). Applying merges a second time changes nothing.",
["inputs"],"All trees with '<<' at any depth, under sequences and tags, chained and mixed with overriding keys.",
"A handful of fixed documents is tested.",
["src/value/mod.rs"],
[("merge worklist","src/value/mod.rs: Value::apply_merge")],
["Value::apply_merge"])

p("C17","Indexing reads, writes and inserts exactly the addressed entry",
"Reading a value by string, value or integer index returns exactly the addressed mapping entry or sequence element (looking through tags) and nothing or null when absent, with shared, mutable and bracket access agreeing. Assigning through a bracket index inserts or replaces exactly that entry, turns null into a mapping when needed, and leaves everything else unchanged. Indexing that cannot be satisfied (out of bounds, wrong kind) panics only where documented and never modifies the value.",
["histories","inputs"],"All trees, all index kinds and all sequences of reads and writes.",
"Tests do a few lookups.",
["src/value/index.rs","src/value/mod.rs","src/mapping.rs"],
[("index implementations","src/value/index.rs: Index for usize/Value/str/String/&T"),("mapping lookup","src/mapping.rs: Index")],
["Value::get","Value::get_mut","Value[..]","Value[..] = .."])

p("C18","Borrowed strings are real slices of the input with the decoded content",
"When a document supplied as a string or slice is read into a type that borrows text, every borrowed string lies entirely within the caller's input buffer, is valid UTF-8, and equals the string that reading the same node into an owned type gives. A scalar whose decoded content does not appear verbatim in the input (escapes, folded lines, block scalars, reader input) is never handed out as a borrow but copied or refused. A plain or quoted scalar that does stand verbatim at its place can be borrowed. The result stays valid after the deserializer is gone.",
["inputs"],"All documents with plain, single-quoted, double-quoted and block scalars, tags, anchors, aliases, keys, multi-byte text and escapes.",
"Three tests check borrowing on fixed strings; an off-by-one in slice positions would produce wrong or invalid text for some inputs only.",
["src/de.rs","src/libyaml/parser.rs"],
[("borrow check against the raw slice","src/de.rs: parse_borrowed_str"),("source slice of a scalar","src/libyaml/parser.rs: convert_event repr")],
["from_str::<&str> and borrowing visitors"])

p("C19","No memory errors or leaks in any use of the library",
"No use of the safe API, successful or not, reads or writes memory out of bounds, after free or uninitialized, frees twice, or otherwise triggers undefined behaviour: parsing, serializing, iterating, dropping at any moment, failing or panicking readers, writers, visitors and serialize implementations included. After everything created by a call has been dropped, all memory it allocated has been released, except where a user callback itself leaked it. Errors and values stay usable after the parser, input and serializer they came from are gone.",
["inputs","fault_sequences","crash_points"],"All workloads of the other properties, with drops, faults and panics injected at every callback.",
"Tests run without sanitizers and without failing callbacks; the crate wraps a C-style library with raw pointers, pinned self-references and a lifetime transmute.",
["src/libyaml/parser.rs","src/libyaml/emitter.rs","src/libyaml/error.rs","src/libyaml/cstr.rs","src/libyaml/util.rs","src/ser.rs","src/de.rs"],
[("pinned parser/emitter ownership","src/libyaml/util.rs: Owned; ParserPinned/EmitterPinned Drop"),("lifetime erasure of the writer","src/ser.rs: Serializer::new, into_inner"),("C strings in errors","src/libyaml/cstr.rs, src/libyaml/error.rs")],
["allocator counters","AddressSanitizer","Miri"])
p("C20","Untyped values and helpers are faithful with any other serde format",
"Values, numbers, mappings and tagged values behave as plain serde data with every serializer and deserializer, not only this crate's. Written to any serializer they announce exactly their content and follow the protocol: null as unit, integers and floats by exact value, sequences and mappings with their true length and all entries in order, a tagged value as a one-entry map from '!tag' to its content. Read from any self-describing source they hold exactly what was offered whatever the integer width, text ownership and (even wrong) size hints, repeated keys, bytes and integers beyond 64 bits being errors; a number, mapping, sequence or tagged value takes exactly its own kind. As sources, values and text announce each node once, in order, with exact lengths where they give one. The single-key-map helpers write the same one-entry maps to, and read them back from, other formats and pass readability through. A failure of the foreign side at any call is returned unchanged and nothing further is asked of it.",
["inputs","fault_sequences"],"All value trees and serde data-model trees, all foreign serializers and deserializers that keep the serde protocol, and a failure at every call.",
"Tests exercise values almost only with YAML text; the other direction (JSON and the like) multiplies data-model shapes, size hints, ownership and failures.",
["src/value/ser.rs","src/value/de.rs","src/value/tagged.rs","src/mapping.rs","src/number.rs","src/with.rs"],
[("values as serde data","src/value/ser.rs: Serialize for Value; src/mapping.rs, src/number.rs, src/value/tagged.rs: Serialize"),("values from serde data","src/value/de.rs: Deserialize for Value; src/mapping.rs, src/number.rs, src/value/tagged.rs: Deserialize"),("helpers over any serializer","src/with.rs: singleton_map, singleton_map_recursive")],
["serde::Serialize for Value","serde::Deserialize for Value","serde_yaml::with::singleton_map","serde_yaml::with::singleton_map_recursive"])
p("C21","Every call is a function of its arguments alone",
"Parsing, serializing, converting and every operation on values give the same outcome (the same value, text, or error with the same message and location) whenever they are given the same arguments: whatever calls were made before on the same thread, including calls that failed, were abandoned half-way, ran into a limit or unwound out of a panicking callback; whatever runs at the same time on other threads; whether they are made at top level or inside a callback of another call (a Serialize, Deserialize, Visitor, Display, Read or Write implementation that itself uses the library), which does not disturb the outer call either; and whatever the environment, locale and working directory of the process are.",
["schedules","histories","inputs"],"All sequences and interleavings of calls, all ways in which earlier calls ended, all nestings of calls inside callbacks.",
"Each test makes a few calls on a fresh thread of its own; state carried over shows only in a later call, after an earlier one ended in an unusual way.",
["src/de.rs","src/ser.rs","src/loader.rs","src/value/tagged.rs","src/value/ser.rs","src/with.rs","src/libyaml/emitter.rs","src/libyaml/parser.rs"],
[("limits and positions kept per call","src/de.rs: DeserializerFromEvents, recursion_check, jump"),("tag detection state kept per serializer","src/ser.rs: State; src/value/tagged.rs: check_for_tag")],
["every public entry point"])
p("C22","What is done with one node does not affect the others",
"Whatever a reader does with one element, key or value of a collection - reads it as any type, fails half-way and ignores the failure, stops early, never looks at it, takes a key without its value - it gets each of the other elements, keys and values exactly as if that one had been skipped: the same value, or the same error with the same location and path. A collection has as many elements for a careless reader as for a careful one, a reader that takes fewer is told the true length, and the part of a damaged document before the damage reads like that of a sound one. This holds for text, byte slices, readers, documents of a stream, owned and borrowed values, and through the single-key-map helpers.",
["inputs","programs"],"All documents, all collections in them, all ways of reading or not reading each of their nodes.",
"Tests read with derived types, which read every node completely and give up at the first error; lenient readers (deserialize_with functions that ignore errors, skipping sequences) are not tested.",
["src/de.rs","src/loader.rs","src/value/de.rs","src/with.rs"],
[("position after each node","src/de.rs: SeqAccess, MapAccess, end_sequence, end_mapping; src/loader.rs: Document"),("remaining entries of values","src/value/de.rs: visit_sequence, visit_mapping, MapDeserializer"),("state of the enum being read","src/de.rs: current_enum")],
["visitors with SeqAccess, MapAccess and EnumAccess","#[serde(deserialize_with)]"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
import sys
for d in P:
    assert len(d["title"])<=80,d["id"]
