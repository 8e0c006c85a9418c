From 942ba6ea5e1b7485439eacfc0b7aee0b799034a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 01/15] fix: start a single-entry mapping before a key that is
 itself a mapping or enum variant

The deferred start of a one-entry map was overwritten (or forgotten) when the
key was a one-entry map, a tagged value, or a newtype, tuple or struct variant,
so the mapping was never opened and serialization failed or panicked.
---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..a4b2690 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -413,6 +413,7 @@ where
     where
         T: ?Sized + ser::Serialize,
     {
+        self.flush_mapping_start()?;
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
@@ -457,6 +458,7 @@ where
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant> {
+        self.flush_mapping_start()?;
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
@@ -467,6 +469,7 @@ where
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap> {
         if len == Some(1) {
+            self.flush_mapping_start()?;
             self.state = if let State::FoundTag(_) = self.state {
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
@@ -491,6 +494,7 @@ where
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
+        self.flush_mapping_start()?;
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
-- 
2.43.0


From ad06ce2c7efcdbce9f2b1f08196a0d867a6c5a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 02/15] fix: give a redefined anchor an id of its own

Ids were taken from the number of distinct anchor names, so after redefining an
anchor the next new anchor reused an id in use and earlier aliases resolved to
the wrong node.
---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From 75f9ddf235aef5482c23bff81b1f43361a35fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 03/15] fix: skip the rest of a document after an unknown
 anchor

The document iterator resumed in the middle of the failed document, yielding
documents that do not exist and panicking on unbalanced events.
---
 src/loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..3aec689 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -83,6 +83,8 @@ impl<'input> Loader<'input> {
                     Some(id) => Event::Alias(*id),
                     None => {
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
+                        // Continue with the next document, not in the middle of this one.
+                        while !matches!(parser.next(), Ok((YamlEvent::DocumentEnd, _)) | Err(_)) {}
                         return Some(document);
                     }
                 },
-- 
2.43.0


From 46cf97ce0bf693eb5a1c825d5fc37781dde1d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 04/15] fix: compare mappings nested in mapping keys regardless
 of entry order

Equal mappings could compare as Less or Greater when they contained keys that
are themselves mappings with differently ordered entries.
---
 src/mapping.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..bd0736d 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -400,9 +400,6 @@ impl Hash for Mapping {
 
 impl PartialOrd for Mapping {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        let mut self_entries = Vec::from_iter(self);
-        let mut other_entries = Vec::from_iter(other);
-
         // Sort in an arbitrary order that is consistent with Value's PartialOrd
         // impl.
         fn total_cmp(a: &Value, b: &Value) -> Ordering {
@@ -428,7 +425,7 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
-                    iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
+                    iter_cmp_by(sorted_entries(a), sorted_entries(b), |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
                 }
@@ -477,10 +474,13 @@ impl PartialOrd for Mapping {
         // While sorting by map key, we get to assume that no two keys are
         // equal, otherwise they wouldn't both be in the map. This is not a safe
         // assumption outside of this situation.
-        let total_cmp = |&(a, _): &_, &(b, _): &_| total_cmp(a, b);
-        self_entries.sort_by(total_cmp);
-        other_entries.sort_by(total_cmp);
-        self_entries.partial_cmp(&other_entries)
+        fn sorted_entries(mapping: &Mapping) -> Vec<(&Value, &Value)> {
+            let mut entries = Vec::from_iter(mapping);
+            entries.sort_by(|&(a, _), &(b, _)| total_cmp(a, b));
+            entries
+        }
+
+        sorted_entries(self).partial_cmp(&sorted_entries(other))
     }
 }
 
-- 
2.43.0


From 0015f264a271f51dd5f1cd9163809bed464a72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 05/15] fix: apply merge keys of merged mappings

A merged mapping that itself contains '<<' left an unapplied '<<' key in the
result, and in a sequence of merged mappings all but the first were lost.
---
 src/value/mod.rs | 48 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..9eab918 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -629,35 +629,31 @@ impl Value {
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
-                        Some(Value::Mapping(merge)) => {
-                            for (k, v) in merge {
-                                mapping.entry(k).or_insert(v);
-                            }
-                        }
-                        Some(Value::Sequence(sequence)) => {
-                            for value in sequence {
-                                match value {
-                                    Value::Mapping(merge) => {
-                                        for (k, v) in merge {
-                                            mapping.entry(k).or_insert(v);
-                                        }
-                                    }
-                                    Value::Sequence(_) => {
-                                        return Err(error::new(ErrorImpl::SequenceInMergeElement));
-                                    }
-                                    Value::Tagged(_) => {
-                                        return Err(error::new(ErrorImpl::TaggedInMerge));
-                                    }
-                                    _unexpected => {
-                                        return Err(error::new(ErrorImpl::ScalarInMergeElement));
-                                    }
+                    let mut pending = Vec::new();
+                    pending.extend(mapping.remove("<<").map(|merge| (merge, false)));
+                    while let Some((merge, in_sequence)) = pending.pop() {
+                        match merge {
+                            Value::Mapping(mut merge) => {
+                                // What the merged mapping itself merges comes
+                                // after its own entries.
+                                let nested = merge.shift_remove("<<");
+                                pending.extend(nested.map(|merge| (merge, false)));
+                                for (k, v) in merge {
+                                    mapping.entry(k).or_insert(v);
                                 }
                             }
+                            Value::Sequence(_) if in_sequence => {
+                                return Err(error::new(ErrorImpl::SequenceInMergeElement));
+                            }
+                            Value::Sequence(sequence) => {
+                                pending.extend(sequence.into_iter().rev().map(|merge| (merge, true)));
+                            }
+                            Value::Tagged(_) => return Err(error::new(ErrorImpl::TaggedInMerge)),
+                            _unexpected if in_sequence => {
+                                return Err(error::new(ErrorImpl::ScalarInMergeElement));
+                            }
+                            _unexpected => return Err(error::new(ErrorImpl::ScalarInMerge)),
                         }
-                        None => {}
-                        Some(Value::Tagged(_)) => return Err(error::new(ErrorImpl::TaggedInMerge)),
-                        Some(_unexpected) => return Err(error::new(ErrorImpl::ScalarInMerge)),
                     }
                     stack.extend(mapping.values_mut());
                 }
-- 
2.43.0


From 061d283e29917f00c2199c01531efcdb775236e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 06/15] fix: a byte order mark does not count as the first
 column

With the encoding set explicitly, libyaml's scanner skips a leading byte
order mark as if it were one column wide, so the first line of the document
was indented differently from the rest: "<BOM>a: 1\nb: 2" was rejected and
"<BOM>--- 1" was read as a string.
---
 src/libyaml/error.rs  | 17 +++++++++--------
 src/libyaml/parser.rs | 18 ++++++++++++++----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/libyaml/error.rs b/src/libyaml/error.rs
index 8397f6e..8fbd05f 100644
--- a/src/libyaml/error.rs
+++ b/src/libyaml/error.rs
@@ -16,24 +16,25 @@ pub(crate) struct Error {
 }
 
 impl Error {
-    pub unsafe fn parse_error(parser: *const sys::yaml_parser_t) -> Self {
+    /// `offset` is the number of bytes of input in front of the parser's.
+    pub unsafe fn parse_error(parser: *const sys::yaml_parser_t, offset: u64) -> Self {
+        let shift = |mut mark: sys::yaml_mark_t| {
+            mark.index += offset;
+            Mark { sys: mark }
+        };
         Error {
             kind: unsafe { (*parser).error },
             problem: match NonNull::new(unsafe { (*parser).problem as *mut _ }) {
                 Some(problem) => unsafe { CStr::from_ptr(problem) },
                 None => CStr::from_bytes_with_nul(b"libyaml parser failed but there is no error\0"),
             },
-            problem_offset: unsafe { (*parser).problem_offset },
-            problem_mark: Mark {
-                sys: unsafe { (*parser).problem_mark },
-            },
+            problem_offset: unsafe { (*parser).problem_offset } + offset,
+            problem_mark: shift(unsafe { (*parser).problem_mark }),
             context: match NonNull::new(unsafe { (*parser).context as *mut _ }) {
                 Some(context) => Some(unsafe { CStr::from_ptr(context) }),
                 None => None,
             },
-            context_mark: Mark {
-                sys: unsafe { (*parser).context_mark },
-            },
+            context_mark: shift(unsafe { (*parser).context_mark }),
         }
     }
 
diff --git a/src/libyaml/parser.rs b/src/libyaml/parser.rs
index 3492edd..144cea3 100644
--- a/src/libyaml/parser.rs
+++ b/src/libyaml/parser.rs
@@ -16,6 +16,8 @@ pub(crate) struct Parser<'input> {
 struct ParserPinned<'input> {
     sys: sys::yaml_parser_t,
     input: Cow<'input, [u8]>,
+    /// Length of the byte order mark, which libyaml does not get to see.
+    bom: usize,
 }
 
 #[derive(Debug)]
@@ -70,11 +72,16 @@ impl<'input> Parser<'input> {
         let pin = unsafe {
             let parser = addr_of_mut!((*owned.ptr).sys);
             if sys::yaml_parser_initialize(parser).fail {
-                panic!("malloc error: {}", Error::parse_error(parser));
+                panic!("malloc error: {}", Error::parse_error(parser, 0));
             }
             sys::yaml_parser_set_encoding(parser, sys::YAML_UTF8_ENCODING);
-            sys::yaml_parser_set_input_string(parser, input.as_ptr(), input.len() as u64);
+            // With an explicit encoding libyaml counts a byte order mark as the
+            // first column, which shifts the indentation of the first line.
+            let bom = if input.starts_with(b"\xEF\xBB\xBF") { 3 } else { 0 };
+            let content = &input[bom..];
+            sys::yaml_parser_set_input_string(parser, content.as_ptr(), content.len() as u64);
             addr_of_mut!((*owned.ptr).input).write(input);
+            addr_of_mut!((*owned.ptr).bom).write(bom);
             Owned::assume_init(owned)
         };
         Parser { pin }
@@ -84,13 +91,16 @@ impl<'input> Parser<'input> {
         let mut event = MaybeUninit::<sys::yaml_event_t>::uninit();
         unsafe {
             let parser = addr_of_mut!((*self.pin.ptr).sys);
+            let bom = (*self.pin.ptr).bom as u64;
             if (*parser).error != sys::YAML_NO_ERROR {
-                return Err(Error::parse_error(parser));
+                return Err(Error::parse_error(parser, bom));
             }
             let event = event.as_mut_ptr();
             if sys::yaml_parser_parse(parser, event).fail {
-                return Err(Error::parse_error(parser));
+                return Err(Error::parse_error(parser, bom));
             }
+            (*event).start_mark.index += bom;
+            (*event).end_mark.index += bom;
             let ret = convert_event(&*event, &(*self.pin.ptr).input);
             let mark = Mark {
                 sys: (*event).start_mark,
-- 
2.43.0


From c72cb88b18cf3e6e40e03327d8a653a1873eb2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 07/15] fix: read an empty tuple variant from a value as a
 sequence

---
 src/value/de.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..816840c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -586,16 +586,12 @@ impl<'de> Deserializer<'de> for SeqDeserializer {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
@@ -1097,16 +1093,12 @@ impl<'de> Deserializer<'de> for SeqRefDeserializer<'de> {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
-- 
2.43.0


From 7c8777c7d362d389bb200cc7908f20c28a6414e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 08/15] fix: flush the underlying writer in Serializer::flush

---
 src/libyaml/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..85c8f44 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -176,8 +176,8 @@ impl<'a> Emitter<'a> {
             if sys::yaml_emitter_flush(emitter).fail {
                 return Err(self.error());
             }
+            (*self.pin.ptr).write.flush().map_err(Error::Io)
         }
-        Ok(())
     }
 
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
-- 
2.43.0


From af05c2506269a7c615064d9b5e4bf76b87526c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 09/15] fix: show the path below an alias of the root without a
 doubled dot

---
 src/path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/path.rs b/src/path.rs
index 095add0..c3e404d 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -18,6 +18,7 @@ impl<'a> Display for Path<'a> {
             fn fmt(&self, formatter: &mut fmt::Formatter) -> Result<(), fmt::Error> {
                 match self.0 {
                     Path::Root => Ok(()),
+                    Path::Alias { parent } => Display::fmt(&Parent(parent), formatter),
                     path => write!(formatter, "{}.", path),
                 }
             }
-- 
2.43.0


From 02d6fa7d47b9b0c027578fd0228d65c67fe14d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 10/15] fix: locate a mistyped null read as an optional value

---
 src/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..93d20c4 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1518,7 +1518,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     where
         V: Visitor<'de>,
     {
-        let is_some = match self.peek_event()? {
+        let (next, mark) = self.peek_event_mark()?;
+        let is_some = match next {
             Event::Alias(mut pos) => {
                 *self.pos += 1;
                 return self.jump(&mut pos)?.deserialize_option(visitor);
@@ -1532,12 +1533,12 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(()) = parse_null(&scalar.value) {
                             false
                         } else if let Ok(v) = str::from_utf8(&scalar.value) {
-                            return Err(de::Error::invalid_value(Unexpected::Str(v), &"null"));
+                            let err = de::Error::invalid_value(Unexpected::Str(v), &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         } else {
-                            return Err(de::Error::invalid_value(
-                                Unexpected::Bytes(&scalar.value),
-                                &"null",
-                            ));
+                            let err =
+                                de::Error::invalid_value(Unexpected::Bytes(&scalar.value), &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         }
                     } else {
                         true
-- 
2.43.0


From b0063a94fbe2b73d6b7e92aaea709b6d03f6d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 11/15] fix: keep the '!' of a displayed key written in more
 than two pieces

---
 src/value/tagged.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..18c308b 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -452,6 +452,7 @@ where
                 }
                 CheckForTag::Tag(string) => {
                     let mut string = mem::take(string);
+                    string.insert(0, '!');
                     string.push_str(s);
                     *self = CheckForTag::NotTag(string);
                 }
-- 
2.43.0


From d59b526289c70810a0437f3184e627f9e283e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 12/15] fix: refuse strings too long for the emitter instead of
 truncating them

---
 src/libyaml/emitter.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 85c8f44..94be374 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -113,7 +113,17 @@ impl<'a> Emitter<'a> {
                         tag.as_ptr()
                     });
                     let value = scalar.value.as_ptr();
-                    let length = scalar.value.len() as i32;
+                    // A wrapped length would be taken for a shorter string, or a
+                    // negative one for a NUL-terminated string.
+                    let length = match i32::try_from(scalar.value.len()) {
+                        Ok(length) => length,
+                        Err(_) => {
+                            return Err(Error::Io(io::Error::new(
+                                io::ErrorKind::InvalidInput,
+                                "string is too long to be emitted",
+                            )));
+                        }
+                    };
                     let plain_implicit = tag.is_null();
                     let quoted_implicit = tag.is_null();
                     let style = match scalar.style {
-- 
2.43.0


From c5e1f88376433cea76988b1cc1d41822e20cc4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 13/15] fix: write an empty map announced with one entry

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index a4b2690..1fae5f4 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -641,7 +641,7 @@ where
 
     fn end(self) -> Result<()> {
         if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
+            self.flush_mapping_start()?;
         }
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
-- 
2.43.0


From e68889ba610ed4ff63168a49c18b1bfc143bc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 14/15] fix: do not read the rest of an abandoned node as its
 neighbour

A visitor that ignored the error of an element, or left it or the value of
a key unread, made the following reads start in the middle of that node:
data was misread, endlessly re-read, or an internal panic was reached.
---
 src/de.rs     | 52 +++++++++++++++++++++++++++++++++------------------
 src/loader.rs | 20 ++++++++++++++++++++
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 93d20c4..e522d26 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -552,17 +552,18 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
     where
         V: Visitor<'de>,
     {
-        let (value, len) = self.recursion_check(mark, |de| {
+        let (value, len, value_pending) = self.recursion_check(mark, |de| {
             let mut map = MapAccess {
                 empty: false,
                 de,
                 len: 0,
                 key: None,
+                value_pending: false,
             };
             let value = visitor.visit_map(&mut map)?;
-            Ok((value, map.len))
+            Ok((value, map.len, map.value_pending))
         })?;
-        self.end_mapping(len)?;
+        self.end_mapping(len, value_pending)?;
         Ok(value)
     }
 
@@ -597,13 +598,14 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
         }
     }
 
-    fn end_mapping(&mut self, len: usize) -> Result<()> {
+    fn end_mapping(&mut self, len: usize, value_pending: bool) -> Result<()> {
         let total = {
             let mut map = MapAccess {
                 empty: false,
                 de: self,
                 len,
                 key: None,
+                value_pending,
             };
             while de::MapAccess::next_entry::<IgnoredAny, IgnoredAny>(&mut map)?.is_some() {}
             map.len
@@ -664,6 +666,7 @@ impl<'de, 'document, 'seq> de::SeqAccess<'de> for SeqAccess<'de, 'document, 'seq
         match self.de.peek_event()? {
             Event::SequenceEnd | Event::Void => Ok(None),
             _ => {
+                let end = self.de.document.ends[*self.de.pos];
                 let mut element_de = DeserializerFromEvents {
                     document: self.de.document,
                     pos: self.de.pos,
@@ -676,7 +679,10 @@ impl<'de, 'document, 'seq> de::SeqAccess<'de> for SeqAccess<'de, 'document, 'seq
                     current_enum: None,
                 };
                 self.len += 1;
-                seed.deserialize(&mut element_de).map(Some)
+                let element = seed.deserialize(&mut element_de).map(Some);
+                // Skip whatever the seed left of the element.
+                *self.de.pos = end;
+                element
             }
         }
     }
@@ -687,6 +693,7 @@ struct MapAccess<'de, 'document, 'map> {
     de: &'map mut DeserializerFromEvents<'de, 'document>,
     len: usize,
     key: Option<&'document [u8]>,
+    value_pending: bool,
 }
 
 impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map> {
@@ -699,25 +706,30 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
         if self.empty {
             return Ok(None);
         }
-        match self.de.peek_event()? {
-            Event::MappingEnd | Event::Void => Ok(None),
-            Event::Scalar(scalar) => {
-                self.len += 1;
-                self.key = Some(&scalar.value);
-                seed.deserialize(&mut *self.de).map(Some)
-            }
-            _ => {
-                self.len += 1;
-                self.key = None;
-                seed.deserialize(&mut *self.de).map(Some)
-            }
+        if mem::replace(&mut self.value_pending, false) {
+            self.de.ignore_any()?;
         }
+        self.key = match self.de.peek_event()? {
+            Event::MappingEnd | Event::Void => return Ok(None),
+            Event::Scalar(scalar) => Some(&scalar.value),
+            _ => None,
+        };
+        self.len += 1;
+        self.value_pending = true;
+        let end = self.de.document.ends[*self.de.pos];
+        let key = seed.deserialize(&mut *self.de).map(Some);
+        // Skip whatever the seed left of the key.
+        *self.de.pos = end;
+        key
     }
 
     fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>
     where
         V: DeserializeSeed<'de>,
     {
+        self.value_pending = false;
+        self.de.peek_event()?;
+        let end = self.de.document.ends[*self.de.pos];
         let mut value_de = DeserializerFromEvents {
             document: self.de.document,
             pos: self.de.pos,
@@ -735,7 +747,10 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
             remaining_depth: self.de.remaining_depth,
             current_enum: None,
         };
-        seed.deserialize(&mut value_de)
+        let value = seed.deserialize(&mut value_de);
+        // Skip whatever the seed left of the value.
+        *self.de.pos = end;
+        value
     }
 }
 
@@ -1679,6 +1694,7 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         de: self,
                         len: 0,
                         key: None,
+                        value_pending: false,
                     })
                 } else {
                     Err(invalid_type(other, &visitor))
diff --git a/src/loader.rs b/src/loader.rs
index 3aec689..34534e1 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -13,6 +13,8 @@ pub(crate) struct Loader<'input> {
 
 pub(crate) struct Document<'input> {
     pub events: Vec<(Event<'input>, Mark)>,
+    /// For each event, the index in events just past the node that it begins.
+    pub ends: Vec<usize>,
     pub error: Option<Arc<ErrorImpl>>,
     /// Map from alias id to index in events.
     pub aliases: BTreeMap<usize, usize>,
@@ -50,8 +52,10 @@ impl<'input> Loader<'input> {
         self.document_count += 1;
 
         let mut anchors = BTreeMap::new();
+        let mut unfinished = Vec::new();
         let mut document = Document {
             events: Vec::new(),
+            ends: Vec::new(),
             error: None,
             aliases: BTreeMap::new(),
         };
@@ -71,6 +75,7 @@ impl<'input> Loader<'input> {
                     return if first {
                         if document.events.is_empty() {
                             document.events.push((Event::Void, mark));
+                            document.ends.push(1);
                         }
                         Some(document)
                     } else {
@@ -115,7 +120,22 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::MappingEnd => Event::MappingEnd,
             };
+            let index = document.events.len();
+            let mut end = index + 1;
+            match event {
+                Event::SequenceStart(_) | Event::MappingStart(_) => {
+                    unfinished.push(index);
+                    end = usize::MAX; // until the end of the collection is found
+                }
+                Event::SequenceEnd | Event::MappingEnd => {
+                    if let Some(start) = unfinished.pop() {
+                        document.ends[start] = end;
+                    }
+                }
+                Event::Alias(_) | Event::Scalar(_) | Event::Void => {}
+            }
             document.events.push((event, mark));
+            document.ends.push(end);
         }
     }
 }
-- 
2.43.0


From 99c712fd8df926a8882e04ee68737031a2d10cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:33 +0000
Subject: [PATCH 15/15] fix: hash floats by value

All floats hashed alike, so reading a mapping with many float keys took time
quadratic in their number: seconds for a few hundred kilobytes.
---
 src/number.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5ebe395..06ff5fd 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -536,15 +536,20 @@ impl From<f64> for Number {
     }
 }
 
-// This is fine, because we don't _really_ implement hash for floats
-// all other hash functions should work as expected
+// Floats that compare equal hash the same: both zeros, and all NaNs.
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for Number {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.n {
-            N::Float(_) => {
+            N::Float(f) => {
                 // you should feel bad for using f64 as a map key
-                3.hash(state);
+                if f.is_nan() {
+                    3.hash(state);
+                } else if f == 0.0 {
+                    0.hash(state);
+                } else {
+                    f.to_bits().hash(state);
+                }
             }
             N::PosInt(u) => u.hash(state),
             N::NegInt(i) => i.hash(state),
-- 
2.43.0

