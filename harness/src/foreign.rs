//! A data format that is not YAML: a serializer that records every call in a
//! tree and checks the protocol, and a deserializer that offers such a tree.
//! Both can fail at a chosen step with an error that can be recognised.
use crate::fw::Rng;
use crate::model::*;
use serde::de::{self, DeserializeSeed, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Clone, Debug)]
pub enum F {
    Unit,
    None,
    Some(Box<F>),
    New(Box<F>),
    Bool(bool),
    /// bits and value
    I(u32, i128),
    U(u32, u128),
    F4(f32),
    F8(f64),
    C(char),
    S(String),
    Bytes(Vec<u8>),
    Seq(Vec<F>),
    Map(Vec<(F, F)>),
    /// variant name and content; None is a unit variant
    Var(String, Option<Box<F>>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct FErr {
    pub token: u64,
    pub msg: String,
}
impl fmt::Display for FErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for FErr {}
impl ser::Error for FErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        FErr { token: 0, msg: m.to_string() }
    }
}
impl de::Error for FErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        FErr { token: 0, msg: m.to_string() }
    }
}

/// Shared by one run.
pub struct St {
    pub steps: Cell<u64>,
    pub fail_at: u64,
    pub token: u64,
    pub human: bool,
    pub rng: RefCell<Rng>,
    /// broken promises of the other side
    pub wrong: RefCell<Vec<String>>,
    pub strict_len: bool,
}
impl St {
    pub fn new(seed: u64) -> St {
        St { steps: Cell::new(0), fail_at: 0, token: 0, human: true, rng: RefCell::new(Rng::new(seed)), wrong: RefCell::new(Vec::new()), strict_len: true }
    }
    pub fn failing(seed: u64, at: u64, token: u64) -> St {
        St { fail_at: at, token, ..St::new(seed) }
    }
    fn step(&self) -> Result<(), FErr> {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        if n == self.fail_at {
            return Err(FErr { token: self.token, msg: format!("foreign failure {}", self.token) });
        }
        if self.fail_at != 0 && n > self.fail_at {
            self.wrong.borrow_mut().push(format!("step {n} after the failure at {}", self.fail_at));
        }
        Ok(())
    }
    fn note(&self, m: String) {
        self.wrong.borrow_mut().push(m);
    }
    pub fn verdict(&self) -> Option<String> {
        self.wrong.borrow().first().cloned()
    }
}

// ------------------------------------------------------------- the recorder

#[derive(Clone, Copy)]
pub struct Rec<'s>(pub &'s St);

pub struct RecSeq<'s> {
    st: &'s St,
    len: Option<usize>,
    out: Vec<F>,
    wrap: Option<String>,
}
impl<'s> RecSeq<'s> {
    fn push<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
        self.st.step()?;
        self.out.push(v.serialize(Rec(self.st))?);
        Ok(())
    }
    fn done(self) -> Result<F, FErr> {
        self.st.step()?;
        if let Some(n) = self.len {
            if n != self.out.len() {
                self.st.note(format!("announced {n} elements, gave {}", self.out.len()));
            }
        } else if self.st.strict_len {
            self.st.note("sequence of unknown length".into());
        }
        let f = F::Seq(self.out);
        Ok(match self.wrap {
            Some(n) => F::Var(n, Some(Box::new(f))),
            None => f,
        })
    }
}
pub struct RecMap<'s> {
    st: &'s St,
    len: Option<usize>,
    out: Vec<(F, F)>,
    key: Option<F>,
    wrap: Option<String>,
}
impl<'s> RecMap<'s> {
    fn done(self) -> Result<F, FErr> {
        self.st.step()?;
        if self.key.is_some() {
            self.st.note("map ended after a key".into());
        }
        if let Some(n) = self.len {
            if n != self.out.len() {
                self.st.note(format!("announced {n} entries, gave {}", self.out.len()));
            }
        } else if self.st.strict_len {
            self.st.note("map of unknown length".into());
        }
        let f = F::Map(self.out);
        Ok(match self.wrap {
            Some(n) => F::Var(n, Some(Box::new(f))),
            None => f,
        })
    }
    fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), FErr> {
        self.st.step()?;
        self.out.push((F::S(k.into()), v.serialize(Rec(self.st))?));
        Ok(())
    }
}

impl<'s> Serializer for Rec<'s> {
    type Ok = F;
    type Error = FErr;
    type SerializeSeq = RecSeq<'s>;
    type SerializeTuple = RecSeq<'s>;
    type SerializeTupleStruct = RecSeq<'s>;
    type SerializeTupleVariant = RecSeq<'s>;
    type SerializeMap = RecMap<'s>;
    type SerializeStruct = RecMap<'s>;
    type SerializeStructVariant = RecMap<'s>;
    fn serialize_bool(self, v: bool) -> Result<F, FErr> {
        self.0.step().map(|()| F::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<F, FErr> {
        self.0.step().map(|()| F::I(8, v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<F, FErr> {
        self.0.step().map(|()| F::I(16, v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<F, FErr> {
        self.0.step().map(|()| F::I(32, v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<F, FErr> {
        self.0.step().map(|()| F::I(64, v as i128))
    }
    fn serialize_i128(self, v: i128) -> Result<F, FErr> {
        self.0.step().map(|()| F::I(128, v))
    }
    fn serialize_u8(self, v: u8) -> Result<F, FErr> {
        self.0.step().map(|()| F::U(8, v as u128))
    }
    fn serialize_u16(self, v: u16) -> Result<F, FErr> {
        self.0.step().map(|()| F::U(16, v as u128))
    }
    fn serialize_u32(self, v: u32) -> Result<F, FErr> {
        self.0.step().map(|()| F::U(32, v as u128))
    }
    fn serialize_u64(self, v: u64) -> Result<F, FErr> {
        self.0.step().map(|()| F::U(64, v as u128))
    }
    fn serialize_u128(self, v: u128) -> Result<F, FErr> {
        self.0.step().map(|()| F::U(128, v))
    }
    fn serialize_f32(self, v: f32) -> Result<F, FErr> {
        self.0.step().map(|()| F::F4(v))
    }
    fn serialize_f64(self, v: f64) -> Result<F, FErr> {
        self.0.step().map(|()| F::F8(v))
    }
    fn serialize_char(self, v: char) -> Result<F, FErr> {
        self.0.step().map(|()| F::C(v))
    }
    fn serialize_str(self, v: &str) -> Result<F, FErr> {
        self.0.step().map(|()| F::S(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<F, FErr> {
        self.0.step().map(|()| F::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<F, FErr> {
        self.0.step().map(|()| F::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<F, FErr> {
        self.0.step()?;
        Ok(F::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<F, FErr> {
        self.0.step().map(|()| F::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<F, FErr> {
        self.0.step().map(|()| F::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<F, FErr> {
        self.0.step().map(|()| F::Var(v.into(), None))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<F, FErr> {
        self.0.step()?;
        Ok(F::New(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<F, FErr> {
        self.0.step()?;
        Ok(F::Var(n.into(), Some(Box::new(v.serialize(self)?))))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<RecSeq<'s>, FErr> {
        self.0.step().map(|()| RecSeq { st: self.0, len, out: vec![], wrap: None })
    }
    fn serialize_tuple(self, len: usize) -> Result<RecSeq<'s>, FErr> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<RecSeq<'s>, FErr> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, len: usize) -> Result<RecSeq<'s>, FErr> {
        self.0.step().map(|()| RecSeq { st: self.0, len: Some(len), out: vec![], wrap: Some(n.into()) })
    }
    fn serialize_map(self, len: Option<usize>) -> Result<RecMap<'s>, FErr> {
        self.0.step().map(|()| RecMap { st: self.0, len, out: vec![], key: None, wrap: None })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<RecMap<'s>, FErr> {
        self.serialize_map(Some(len))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, len: usize) -> Result<RecMap<'s>, FErr> {
        self.0.step().map(|()| RecMap { st: self.0, len: Some(len), out: vec![], key: None, wrap: Some(n.into()) })
    }
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
}
macro_rules! rec_seq {
    ($tr:ident, $m:ident) => {
        impl<'s> ser::$tr for RecSeq<'s> {
            type Ok = F;
            type Error = FErr;
            fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
                self.push(v)
            }
            fn end(self) -> Result<F, FErr> {
                self.done()
            }
        }
    };
}
rec_seq!(SerializeSeq, serialize_element);
rec_seq!(SerializeTuple, serialize_element);
rec_seq!(SerializeTupleStruct, serialize_field);
rec_seq!(SerializeTupleVariant, serialize_field);
impl<'s> ser::SerializeMap for RecMap<'s> {
    type Ok = F;
    type Error = FErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), FErr> {
        self.st.step()?;
        if self.key.is_some() {
            self.st.note("two keys in a row".into());
        }
        self.key = Some(k.serialize(Rec(self.st))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
        self.st.step()?;
        match self.key.take() {
            Some(k) => self.out.push((k, v.serialize(Rec(self.st))?)),
            None => self.st.note("a value without a key".into()),
        }
        Ok(())
    }
    fn end(self) -> Result<F, FErr> {
        self.done()
    }
}
impl<'s> ser::SerializeStruct for RecMap<'s> {
    type Ok = F;
    type Error = FErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), FErr> {
        self.field(k, v)
    }
    fn end(self) -> Result<F, FErr> {
        self.done()
    }
}
impl<'s> ser::SerializeStructVariant for RecMap<'s> {
    type Ok = F;
    type Error = FErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), FErr> {
        self.field(k, v)
    }
    fn end(self) -> Result<F, FErr> {
        self.done()
    }
}

// -------------------------------------------------------------- the offerer

/// Gives what it has, whatever it is asked for (as self-describing formats do),
/// except that an option is announced where one is asked for.
#[derive(Clone, Copy)]
pub struct Offer<'de, 's> {
    pub f: &'de F,
    pub st: &'s St,
}

struct OfferSeq<'de, 's> {
    it: std::slice::Iter<'de, F>,
    st: &'s St,
}
struct OfferMap<'de, 's> {
    it: std::slice::Iter<'de, (F, F)>,
    val: Option<&'de F>,
    st: &'s St,
}
fn hint(st: &St, n: usize) -> Option<usize> {
    match st.rng.borrow_mut().below(6) {
        0 | 1 => None,
        2 => Some(usize::MAX),
        3 => Some(0),
        _ => Some(n),
    }
}
impl<'de, 's> de::SeqAccess<'de> for OfferSeq<'de, 's> {
    type Error = FErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, FErr> {
        self.st.step()?;
        match self.it.next() {
            Some(f) => seed.deserialize(Offer { f, st: self.st }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.st, self.it.len())
    }
}
impl<'de, 's> de::MapAccess<'de> for OfferMap<'de, 's> {
    type Error = FErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, FErr> {
        self.st.step()?;
        if self.val.is_some() {
            self.st.note("a key was asked for where a value stands".into());
        }
        match self.it.next() {
            Some((k, v)) => {
                self.val = Some(v);
                seed.deserialize(Offer { f: k, st: self.st }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, FErr> {
        self.st.step()?;
        match self.val.take() {
            Some(f) => seed.deserialize(Offer { f, st: self.st }),
            None => {
                self.st.note("a value was asked for where a key stands".into());
                Err(de::Error::custom("harness: no value"))
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.st, self.it.len())
    }
}
struct OfferEnum<'de, 's> {
    name: &'de str,
    content: Option<&'de F>,
    st: &'s St,
}
impl<'de, 's> de::EnumAccess<'de> for OfferEnum<'de, 's> {
    type Error = FErr;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Self), FErr> {
        self.st.step()?;
        let v = seed.deserialize(de::value::BorrowedStrDeserializer::<FErr>::new(self.name))?;
        Ok((v, self))
    }
}
impl<'de, 's> de::VariantAccess<'de> for OfferEnum<'de, 's> {
    type Error = FErr;
    fn unit_variant(self) -> Result<(), FErr> {
        self.st.step()?;
        match self.content {
            None => Ok(()),
            Some(_) => Err(de::Error::custom("not a unit variant")),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, FErr> {
        self.st.step()?;
        match self.content {
            None => Err(de::Error::custom("a unit variant")),
            Some(f) => seed.deserialize(Offer { f, st: self.st }),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, FErr> {
        self.newtype_variant_seed(Any(v))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, FErr> {
        self.newtype_variant_seed(Any(v))
    }
}
struct Any<V>(V);
impl<'de, V: Visitor<'de>> DeserializeSeed<'de> for Any<V> {
    type Value = V::Value;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V::Value, D::Error> {
        d.deserialize_any(self.0)
    }
}

impl<'de, 's> Deserializer<'de> for Offer<'de, 's> {
    type Error = FErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        self.st.step()?;
        let st = self.st;
        match self.f {
            F::Unit => v.visit_unit(),
            F::None => v.visit_none(),
            F::Some(f) => v.visit_some(Offer { f, st }),
            F::New(f) => v.visit_newtype_struct(Offer { f, st }),
            F::Bool(b) => v.visit_bool(*b),
            F::I(8, i) => v.visit_i8(*i as i8),
            F::I(16, i) => v.visit_i16(*i as i16),
            F::I(32, i) => v.visit_i32(*i as i32),
            F::I(64, i) => v.visit_i64(*i as i64),
            F::I(_, i) => v.visit_i128(*i),
            F::U(8, i) => v.visit_u8(*i as u8),
            F::U(16, i) => v.visit_u16(*i as u16),
            F::U(32, i) => v.visit_u32(*i as u32),
            F::U(64, i) => v.visit_u64(*i as u64),
            F::U(_, i) => v.visit_u128(*i),
            F::F4(f) => v.visit_f32(*f),
            F::F8(f) => v.visit_f64(*f),
            F::C(c) => v.visit_char(*c),
            F::S(s) => {
                let how = st.rng.borrow_mut().below(3);
                match how {
                    0 => v.visit_borrowed_str(s),
                    1 => v.visit_str(&s.clone()),
                    _ => v.visit_string(s.clone()),
                }
            }
            F::Bytes(b) => {
                let how = st.rng.borrow_mut().below(3);
                match how {
                    0 => v.visit_borrowed_bytes(b),
                    1 => v.visit_bytes(&b.clone()),
                    _ => v.visit_byte_buf(b.clone()),
                }
            }
            F::Seq(fs) => v.visit_seq(OfferSeq { it: fs.iter(), st }),
            F::Map(es) => v.visit_map(OfferMap { it: es.iter(), val: None, st }),
            F::Var(n, c) => v.visit_enum(OfferEnum { name: n, content: c.as_deref(), st }),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        match self.f {
            F::Unit | F::None => {
                self.st.step()?;
                v.visit_none()
            }
            F::Some(_) => self.deserialize_any(v),
            _ => {
                self.st.step()?;
                v.visit_some(self)
            }
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, FErr> {
        self.st.step()?;
        match self.f {
            F::New(f) => v.visit_newtype_struct(Offer { f, st: self.st }),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, FErr> {
        match self.f {
            F::S(n) => {
                self.st.step()?;
                v.visit_enum(OfferEnum { name: n, content: None, st: self.st })
            }
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, FErr> {
        self.st.step()?;
        v.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        self.st.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct identifier
    }
}
// ------------------------------------------------- trees and what they mean

/// What a value read from `f` has to be; Err = an error; None = left open.
pub fn meaning(f: &F) -> Result<Option<M>, ()> {
    Ok(Some(match f {
        F::Unit | F::None => M::Null,
        F::Some(f) => return meaning(f),
        F::New(f) => {
            meaning(f)?;
            return Ok(None);
        }
        F::Bool(b) => M::Bool(*b),
        F::I(b, i) => {
            if *i > u64::MAX as i128 || *i < i64::MIN as i128 {
                return Err(());
            }
            if *b > 64 {
                return Ok(None);
            }
            M::Int(*i)
        }
        F::U(b, u) => {
            if *u > u64::MAX as u128 {
                return Err(());
            }
            if *b > 64 {
                return Ok(None);
            }
            M::Int(*u as i128)
        }
        F::F4(f) => M::F(*f as f64),
        F::F8(f) => M::F(*f),
        F::C(c) => M::S(c.to_string()),
        F::S(s) => M::S(s.clone()),
        F::Bytes(_) => return Err(()),
        F::Seq(fs) => {
            let mut out = Vec::new();
            let mut open = false;
            for f in fs {
                match meaning(f)? {
                    Some(m) => out.push(m),
                    None => open = true,
                }
            }
            if open {
                return Ok(None);
            }
            M::Seq(out)
        }
        F::Map(es) => {
            let mut out: Vec<(M, M)> = Vec::new();
            let mut open = false;
            let mut dup = false;
            for (k, v) in es {
                match (meaning(k)?, meaning(v)?) {
                    (Some(k), Some(v)) => {
                        dup |= out.iter().any(|(o, _)| o.canon() == k.canon());
                        out.push((k, v));
                    }
                    _ => open = true,
                }
            }
            if dup {
                return Err(());
            }
            if open {
                return Ok(None);
            }
            M::Map(out)
        }
        F::Var(n, c) => {
            if n.is_empty() {
                return Err(());
            }
            let Some(c) = c else { return Err(()) };
            let t = match n.strip_prefix('!') {
                Some("") | None => &n[..],
                Some(t) => t,
            };
            match meaning(c)? {
                Some(m) => M::Tag(t.to_string(), Box::new(m)),
                None => return Ok(None),
            }
        }
    }))
}
/// The calls an untyped value must make.
pub fn calls(m: &M) -> F {
    match m {
        M::Null => F::Unit,
        M::Bool(b) => F::Bool(*b),
        M::Int(i) => {
            if *i < 0 {
                F::I(64, *i)
            } else {
                F::U(64, *i as u128)
            }
        }
        M::F(f) => F::F8(*f),
        M::S(s) => F::S(s.clone()),
        M::Seq(v) => F::Seq(v.iter().map(calls).collect()),
        M::Map(es) => F::Map(es.iter().map(|(k, v)| (calls(k), calls(v))).collect()),
        M::Tag(t, v) => F::Map(vec![(F::S(format!("!{t}")), calls(v))]),
    }
}
pub fn same(a: &F, b: &F) -> bool {
    match (a, b) {
        (F::Unit, F::Unit) | (F::None, F::None) => true,
        (F::Some(a), F::Some(b)) | (F::New(a), F::New(b)) => same(a, b),
        (F::Bool(a), F::Bool(b)) => a == b,
        (F::I(x, a), F::I(y, b)) => x == y && a == b,
        (F::U(x, a), F::U(y, b)) => x == y && a == b,
        (F::F4(a), F::F4(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (F::F8(a), F::F8(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (F::C(a), F::C(b)) => a == b,
        (F::S(a), F::S(b)) => a == b,
        (F::Bytes(a), F::Bytes(b)) => a == b,
        (F::Seq(a), F::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (F::Map(a), F::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(&a.0, &b.0) && same(&a.1, &b.1)),
        (F::Var(m, a), F::Var(n, b)) => {
            m == n
                && match (a, b) {
                    (Some(a), Some(b)) => same(a, b),
                    (None, None) => true,
                    _ => false,
                }
        }
        _ => false,
    }
}

pub fn gen_f(r: &mut Rng, depth: usize, odd: bool) -> F {
    let k = if depth == 0 { r.below(16) } else { r.below(28) };
    match k {
        0 => F::Unit,
        1 => F::None,
        2 => F::Bool(r.bool()),
        3..=5 => {
            let bits = *r.pick(&[8u32, 16, 32, 64, 64, 128]);
            if bits == 128 && !odd {
                return F::Unit;
            }
            if r.bool() {
                let v = gen_int(r);
                let v = if bits == 128 && r.bool() { (v << 40) ^ v } else { v };
                let m = if bits == 128 { v } else { (v << (128 - bits)) >> (128 - bits) };
                F::I(bits, m)
            } else {
                let v = dict_int(r);
                let m = if bits == 128 { v } else { v & ((1u128 << bits) - 1) };
                F::U(bits, m)
            }
        }
        6 => F::F4(crate::dynty::gen_f32(r)),
        7 | 8 => F::F8(gen_f64(r)),
        9 => F::C(gen_char(r)),
        10 => {
            if odd && r.chance(1, 3) {
                F::Bytes(gen_string(r).into_bytes())
            } else {
                F::S(String::new())
            }
        }
        11..=15 => F::S(gen_string(r)),
        16 => F::Some(Box::new(gen_f(r, depth - 1, odd))),
        17 if odd => F::New(Box::new(gen_f(r, depth - 1, odd))),
        17..=20 => {
            let n = r.below(5);
            F::Seq((0..n).map(|_| gen_f(r, depth - 1, odd)).collect())
        }
        21..=24 => {
            let n = r.below(5);
            let mut es: Vec<(F, F)> = (0..n).map(|_| {
                let d = if r.chance(1, 5) { depth - 1 } else { 0 };
                (gen_f(r, d, odd), gen_f(r, depth - 1, odd))
            }).collect();
            if odd && n > 1 && r.chance(1, 8) {
                let i = r.below(n);
                let j = r.below(n);
                es[i].0 = es[j].0.clone();
            }
            F::Map(es)
        }
        _ => {
            let n = if odd && r.chance(1, 12) { String::new() } else { let b = if r.chance(1, 4) { "!" } else { "" }; format!("{b}{}", gen_tag(r)) };
            let c = if odd && r.chance(1, 8) { None } else { Some(Box::new(gen_f(r, depth - 1, odd))) };
            F::Var(n, c)
        }
    }
}
