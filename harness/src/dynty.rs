//! Types and values of the serde data model, chosen at run time, that
//! (de)serialize exactly as derived implementations would.
use crate::any::AnyM;
use crate::fw::Rng;
use crate::model::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IK {
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
}
pub type Names = &'static [&'static str];

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    Int(IK),
    F32,
    F64,
    Char,
    Str,
    Unit,
    UnitS(&'static str),
    Opt(Box<Ty>),
    New(&'static str, Box<Ty>),
    Tuple(Vec<Ty>),
    TupleS(&'static str, Vec<Ty>),
    Seq(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(&'static str, Names, Vec<Ty>),
    Enum(&'static str, Names, Vec<VTy>),
    /// An untyped value inside a typed one
    Any,
    Bytes,
    /// with = singleton_map
    Single(Box<Ty>),
    /// with = singleton_map_recursive
    SingleRec(Box<Ty>),
}
#[derive(Clone, Debug)]
pub enum VTy {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Names, Vec<Ty>),
}
#[derive(Clone, Debug)]
pub enum TV {
    B(bool),
    I(i128),
    U(u128),
    F4(f32),
    F8(f64),
    C(char),
    S(String),
    Unit,
    None,
    Some(Box<TV>),
    Seq(Vec<TV>),
    Map(Vec<(TV, TV)>),
    Fields(Vec<TV>),
    Var(usize, Box<TV>),
    Any(M),
    Bytes(Vec<u8>),
}
impl TV {
    pub fn same(&self, o: &TV) -> bool {
        let list = |a: &Vec<TV>, b: &Vec<TV>| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y));
        match (self, o) {
            (TV::B(a), TV::B(b)) => a == b,
            (TV::I(a), TV::I(b)) => a == b,
            (TV::U(a), TV::U(b)) => a == b,
            (TV::F4(a), TV::F4(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (TV::F8(a), TV::F8(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (TV::C(a), TV::C(b)) => a == b,
            (TV::S(a), TV::S(b)) => a == b,
            (TV::Unit, TV::Unit) | (TV::None, TV::None) => true,
            (TV::Some(a), TV::Some(b)) => a.same(b),
            (TV::Seq(a), TV::Seq(b)) | (TV::Fields(a), TV::Fields(b)) => list(a, b),
            (TV::Map(a), TV::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k.same(l) && v.same(w)),
            (TV::Var(i, a), TV::Var(j, b)) => i == j && a.same(b),
            (TV::Any(a), TV::Any(b)) => a.same(b),
            (TV::Bytes(a), TV::Bytes(b)) => a == b,
            _ => false,
        }
    }
}

// ------------------------------------------------------------ serialization

pub const KEYVALUE: u8 = 1; // serialize_key + serialize_value instead of serialize_entry
pub const NOLEN: u8 = 2; // unknown lengths
pub const SKIPNONE: u8 = 4; // absent fields for None
pub const DISPLAY: u8 = 8; // collect_str for strings
pub const REFS: u8 = 16; // through serialize_some's and newtype's `&&T`

pub struct DynL<'a, L> {
    pub ty: &'a Ty,
    pub tv: &'a TV,
    pub mode: u8,
    pub l: PhantomData<L>,
}
pub type Dyn<'a> = DynL<'a, L0>;
pub fn dynv<'a>(ty: &'a Ty, tv: &'a TV, mode: u8) -> Dyn<'a> {
    DynL { ty, tv, mode, l: PhantomData }
}
/// How many single-key-map helpers may still be applied (the helpers wrap the
/// serializer's type, so the nesting has to be finite at compile time).
pub trait Lvl {
    fn ser<S: Serializer>(ty: &Ty, tv: &TV, mode: u8, rec: bool, s: S) -> Result<S::Ok, S::Error>;
    fn de<'de, D: Deserializer<'de>>(ty: &Ty, rec: bool, d: D) -> Result<TV, D::Error>;
}
pub struct L0;
pub struct L1;
impl Lvl for L0 {
    fn ser<S: Serializer>(ty: &Ty, tv: &TV, mode: u8, rec: bool, s: S) -> Result<S::Ok, S::Error> {
        let d: DynL<L1> = DynL { ty, tv, mode, l: PhantomData };
        if rec {
            serde_yaml::with::singleton_map_recursive::serialize(&d, s)
        } else {
            serde_yaml::with::singleton_map::serialize(&d, s)
        }
    }
    fn de<'de, D: Deserializer<'de>>(ty: &Ty, rec: bool, d: D) -> Result<TV, D::Error> {
        as_type(ty, || if rec { serde_yaml::with::singleton_map_recursive::deserialize::<Inner, D>(d) } else { serde_yaml::with::singleton_map::deserialize::<Inner, D>(d) }).map(|r| r.0)
    }
}
impl Lvl for L1 {
    fn ser<S: Serializer>(_: &Ty, _: &TV, _: u8, _: bool, _: S) -> Result<S::Ok, S::Error> {
        bad()
    }
    fn de<'de, D: Deserializer<'de>>(_: &Ty, _: bool, _: D) -> Result<TV, D::Error> {
        bad()
    }
}
fn bad() -> ! {
    panic!("harness: value does not match its type")
}
impl<'a, L> DynL<'a, L> {
    fn sub<'b>(&self, ty: &'b Ty, tv: &'b TV) -> DynL<'b, L> {
        DynL { ty, tv, mode: self.mode, l: PhantomData }
    }
    fn skip(&self, ty: &Ty, tv: &TV) -> bool {
        self.mode & SKIPNONE != 0 && matches!((ty, tv), (Ty::Opt(_), TV::None))
    }
}
impl<'a, L: Lvl> Serialize for DynL<'a, L> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.ty, self.tv) {
            (Ty::Bool, TV::B(b)) => s.serialize_bool(*b),
            (Ty::Int(k), TV::I(i)) => match k {
                IK::I8 => s.serialize_i8(*i as i8),
                IK::I16 => s.serialize_i16(*i as i16),
                IK::I32 => s.serialize_i32(*i as i32),
                IK::I64 => s.serialize_i64(*i as i64),
                IK::I128 => s.serialize_i128(*i),
                IK::U8 => s.serialize_u8(*i as u8),
                IK::U16 => s.serialize_u16(*i as u16),
                IK::U32 => s.serialize_u32(*i as u32),
                IK::U64 => s.serialize_u64(*i as u64),
                IK::U128 => bad(),
            },
            (Ty::Int(IK::U128), TV::U(u)) => s.serialize_u128(*u),
            (Ty::F32, TV::F4(f)) => s.serialize_f32(*f),
            (Ty::F64, TV::F8(f)) => s.serialize_f64(*f),
            (Ty::Char, TV::C(c)) => s.serialize_char(*c),
            (Ty::Str, TV::S(v)) => {
                if self.mode & DISPLAY != 0 && !v.starts_with('!') {
                    s.collect_str(v)
                } else {
                    s.serialize_str(v)
                }
            }
            (Ty::Unit, TV::Unit) => s.serialize_unit(),
            (Ty::UnitS(n), TV::Unit) => s.serialize_unit_struct(n),
            (Ty::Opt(_), TV::None) => s.serialize_none(),
            (Ty::Opt(t), TV::Some(v)) => {
                if self.mode & REFS != 0 {
                    s.serialize_some(&Box::new(&self.sub(t, v)))
                } else {
                    s.serialize_some(&self.sub(t, v))
                }
            }
            (Ty::New(n, t), v) => s.serialize_newtype_struct(n, &self.sub(t, v)),
            (Ty::Tuple(ts), TV::Fields(vs)) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&self.sub(t, v))?;
                }
                q.end()
            }
            (Ty::TupleS(n, ts), TV::Fields(vs)) => {
                let mut q = s.serialize_tuple_struct(n, ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&self.sub(t, v))?;
                }
                q.end()
            }
            (Ty::Seq(t), TV::Seq(vs)) => {
                let mut q = s.serialize_seq(if self.mode & NOLEN != 0 { None } else { Some(vs.len()) })?;
                for v in vs {
                    q.serialize_element(&self.sub(t, v))?;
                }
                q.end()
            }
            (Ty::Map(kt, vt), TV::Map(es)) => {
                let mut q = s.serialize_map(if self.mode & NOLEN != 0 { None } else { Some(es.len()) })?;
                for (k, v) in es {
                    if self.mode & KEYVALUE != 0 {
                        q.serialize_key(&self.sub(kt, k))?;
                        q.serialize_value(&self.sub(vt, v))?;
                    } else {
                        q.serialize_entry(&self.sub(kt, k), &self.sub(vt, v))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(n, fs, ts), TV::Fields(vs)) => {
                let len = ts.iter().zip(vs).filter(|(t, v)| !self.skip(t, v)).count();
                let mut q = s.serialize_struct(n, len)?;
                for ((f, t), v) in fs.iter().zip(ts).zip(vs) {
                    if self.skip(t, v) {
                        q.skip_field(f)?;
                    } else {
                        q.serialize_field(f, &self.sub(t, v))?;
                    }
                }
                q.end()
            }
            (Ty::Enum(n, names, vts), TV::Var(i, p)) => match (&vts[*i], &**p) {
                (VTy::Unit, TV::Unit) => s.serialize_unit_variant(n, *i as u32, names[*i]),
                (VTy::New(t), v) => s.serialize_newtype_variant(n, *i as u32, names[*i], &self.sub(t, v)),
                (VTy::Tuple(ts), TV::Fields(vs)) => {
                    let mut q = s.serialize_tuple_variant(n, *i as u32, names[*i], ts.len())?;
                    for (t, v) in ts.iter().zip(vs) {
                        q.serialize_field(&self.sub(t, v))?;
                    }
                    q.end()
                }
                (VTy::Struct(fs, ts), TV::Fields(vs)) => {
                    let len = ts.iter().zip(vs).filter(|(t, v)| !self.skip(t, v)).count();
                    let mut q = s.serialize_struct_variant(n, *i as u32, names[*i], len)?;
                    for ((f, t), v) in fs.iter().zip(ts).zip(vs) {
                        if self.skip(t, v) {
                            q.skip_field(f)?;
                        } else {
                            q.serialize_field(f, &self.sub(t, v))?;
                        }
                    }
                    q.end()
                }
                _ => bad(),
            },
            (Ty::Any, TV::Any(m)) => to_val(m).serialize(s),
            (Ty::Bytes, TV::Bytes(b)) => s.serialize_bytes(b),
            (Ty::Single(t), v) => L::ser(t, v, self.mode, false, s),
            (Ty::SingleRec(t), v) => L::ser(t, v, self.mode, true, s),
            _ => bad(),
        }
    }
}

// ---------------------------------------------------------- deserialization

thread_local! { static CUR: RefCell<Option<Rc<Ty>>> = RefCell::new(None); }

/// A value of the type set with `as_type`.
#[derive(Debug)]
pub struct Root(pub TV);
impl<'de> Deserialize<'de> for Root {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let ty = CUR.with(|c| c.borrow().clone()).expect("harness: no type set");
        Seed(&ty, PhantomData::<L0>).deserialize(d).map(Root)
    }
}
struct Inner(TV);
impl<'de> Deserialize<'de> for Inner {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let ty = CUR.with(|c| c.borrow().clone()).expect("harness: no type set");
        Seed(&ty, PhantomData::<L1>).deserialize(d).map(Inner)
    }
}
pub fn as_type<T>(ty: &Ty, f: impl FnOnce() -> T) -> T {
    let old = CUR.with(|c| c.replace(Some(Rc::new(ty.clone()))));
    struct Reset(Option<Rc<Ty>>);
    impl Drop for Reset {
        fn drop(&mut self) {
            let t = self.0.take();
            CUR.with(|c| *c.borrow_mut() = t);
        }
    }
    let _r = Reset(old);
    f()
}

pub struct Seed<'t, L>(pub &'t Ty, pub PhantomData<L>);
impl<'de, 't, L: Lvl> DeserializeSeed<'de> for Seed<'t, L> {
    type Value = TV;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<TV, D::Error> {
        macro_rules! int {
            ($t:ty) => {
                <$t>::deserialize(d).map(|v| TV::I(v as i128))
            };
        }
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(TV::B),
            Ty::Int(k) => match k {
                IK::I8 => int!(i8),
                IK::I16 => int!(i16),
                IK::I32 => int!(i32),
                IK::I64 => int!(i64),
                IK::I128 => int!(i128),
                IK::U8 => int!(u8),
                IK::U16 => int!(u16),
                IK::U32 => int!(u32),
                IK::U64 => int!(u64),
                IK::U128 => u128::deserialize(d).map(TV::U),
            },
            Ty::F32 => f32::deserialize(d).map(TV::F4),
            Ty::F64 => f64::deserialize(d).map(TV::F8),
            Ty::Char => char::deserialize(d).map(TV::C),
            Ty::Str => String::deserialize(d).map(TV::S),
            Ty::Unit => <()>::deserialize(d).map(|()| TV::Unit),
            Ty::UnitS(n) => d.deserialize_unit_struct(n, UnitV).map(|()| TV::Unit),
            Ty::Opt(t) => d.deserialize_option(OptV(t, PhantomData::<L>)),
            Ty::New(n, t) => d.deserialize_newtype_struct(n, NewV(t, PhantomData::<L>)),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), TupV(ts, PhantomData::<L>)),
            Ty::TupleS(n, ts) => d.deserialize_tuple_struct(n, ts.len(), TupV(ts, PhantomData::<L>)),
            Ty::Seq(t) => d.deserialize_seq(SeqV(t, PhantomData::<L>)),
            Ty::Map(k, v) => d.deserialize_map(MapV(k, v, PhantomData::<L>)),
            Ty::Struct(n, fs, ts) => d.deserialize_struct(n, fs, StructV(fs, ts, PhantomData::<L>)),
            Ty::Enum(n, names, vts) => d.deserialize_enum(n, names, EnumV(names, vts, PhantomData::<L>)),
            Ty::Any => AnyM::deserialize(d).map(|a| TV::Any(a.0)),
            Ty::Bytes => d.deserialize_byte_buf(BytesV),
            Ty::Single(t) => L::de(t, false, d),
            Ty::SingleRec(t) => L::de(t, true, d),
        }
    }
}
struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct")
    }
    fn visit_unit<E>(self) -> Result<(), E> {
        Ok(())
    }
}
struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("byte array")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<TV, E> {
        Ok(TV::Bytes(v.to_vec()))
    }
    fn visit_str<E>(self, v: &str) -> Result<TV, E> {
        Ok(TV::Bytes(v.as_bytes().to_vec()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(TV::Bytes(v))
    }
}
struct OptV<'t, L>(&'t Ty, PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for OptV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E>(self) -> Result<TV, E> {
        Ok(TV::None)
    }
    fn visit_none<E>(self) -> Result<TV, E> {
        Ok(TV::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<TV, D::Error> {
        Seed(self.0, PhantomData::<L>).deserialize(d).map(|v| TV::Some(Box::new(v)))
    }
}
struct NewV<'t, L>(&'t Ty, PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for NewV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple struct")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<TV, D::Error> {
        Seed(self.0, PhantomData::<L>).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        match a.next_element_seed(Seed(self.0, PhantomData::<L>))? {
            Some(v) => Ok(v),
            None => Err(de::Error::invalid_length(0, &"tuple struct with 1 element")),
        }
    }
}
struct TupV<'t, L>(&'t [Ty], PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for TupV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of size {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        let mut out = Vec::new();
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(t, PhantomData::<L>))? {
                Some(v) => out.push(v),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(TV::Fields(out))
    }
}
struct SeqV<'t, L>(&'t Ty, PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for SeqV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        let mut out = Vec::new();
        while let Some(v) = a.next_element_seed(Seed(self.0, PhantomData::<L>))? {
            out.push(v);
        }
        Ok(TV::Seq(out))
    }
}
struct MapV<'t, L>(&'t Ty, &'t Ty, PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for MapV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        let mut out = Vec::new();
        while let Some(k) = a.next_key_seed(Seed(self.0, PhantomData::<L>))? {
            let v = a.next_value_seed(Seed(self.1, PhantomData::<L>))?;
            out.push((k, v));
        }
        Ok(TV::Map(out))
    }
}
struct Id(Names, bool);
impl<'de> DeserializeSeed<'de> for Id {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Id {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.1 { "variant identifier" } else { "field identifier" })
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        if (v as usize) < self.0.len() {
            Ok(Some(v as usize))
        } else if self.1 {
            Err(E::invalid_value(de::Unexpected::Unsigned(v), &"variant index"))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| *n == v) {
            Some(i) => Ok(Some(i)),
            None if self.1 => Err(E::unknown_variant(v, self.0)),
            None => Ok(None),
        }
    }
}
struct StructV<'t, L>(Names, &'t [Ty], PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for StructV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<TV, A::Error> {
        TupV(self.1, PhantomData::<L>).visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        let mut out: Vec<Option<TV>> = self.1.iter().map(|_| None).collect();
        while let Some(id) = a.next_key_seed(Id(self.0, false))? {
            match id {
                Some(i) => {
                    if out[i].is_some() {
                        return Err(de::Error::duplicate_field(self.0[i]));
                    }
                    out[i] = Some(a.next_value_seed(Seed(&self.1[i], PhantomData::<L>))?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut v = Vec::new();
        for (i, o) in out.into_iter().enumerate() {
            v.push(match o {
                Some(x) => x,
                None if matches!(self.1[i], Ty::Opt(_)) => TV::None,
                None => return Err(de::Error::missing_field(self.0[i])),
            });
        }
        Ok(TV::Fields(v))
    }
}
struct EnumV<'t, L>(Names, &'t [VTy], PhantomData<L>);
impl<'de, 't, L: Lvl> Visitor<'de> for EnumV<'t, L> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<TV, A::Error> {
        let (i, v) = a.variant_seed(Id(self.0, true))?;
        let i = i.unwrap();
        let p = match &self.1[i] {
            VTy::Unit => {
                v.unit_variant()?;
                TV::Unit
            }
            VTy::New(t) => v.newtype_variant_seed(Seed(t, PhantomData::<L>))?,
            VTy::Tuple(ts) => v.tuple_variant(ts.len(), TupV(ts, PhantomData::<L>))?,
            VTy::Struct(fs, ts) => v.struct_variant(fs, StructV(fs, ts, PhantomData::<L>))?,
        };
        Ok(TV::Var(i, Box::new(p)))
    }
}

// ---------------------------------------------------------------- the model

/// What the untyped reading of a serialized value must be.
pub struct Expect {
    /// to_value instead of text
    pub value: bool,
    /// an integer outside 64 bits went through an untyped value
    pub wide_in_value: bool,
    pub bytes_in_text: bool,
    pub skip_none: bool,
}
impl Expect {
    pub fn new(value: bool, skip_none: bool) -> Expect {
        Expect { value, wide_in_value: false, bytes_in_text: false, skip_none }
    }
    pub fn model(&mut self, ty: &Ty, tv: &TV) -> M {
        self.go(ty, tv, 0, self.value)
    }
    fn go(&mut self, ty: &Ty, tv: &TV, single: u8, value: bool) -> M {
        let deep = if single == 2 { 2 } else { 0 };
        match (ty, tv) {
            (Ty::Bool, TV::B(b)) => M::Bool(*b),
            (Ty::Int(_), TV::I(i)) => {
                if value && (*i > u64::MAX as i128 || *i < i64::MIN as i128) {
                    self.wide_in_value = true;
                    return M::S(i.to_string());
                }
                M::Int(*i)
            }
            (Ty::Int(_), TV::U(u)) => {
                if value && *u > u64::MAX as u128 {
                    self.wide_in_value = true;
                    return M::S(u.to_string());
                }
                match i128::try_from(*u) {
                    Ok(i) => M::Int(i),
                    Err(_) => M::S(format!("\u{1}u128 {u}")),
                }
            }
            (Ty::F32, TV::F4(f)) => {
                if value || !f.is_finite() {
                    M::F(*f as f64)
                } else {
                    M::F(format!("{f:e}").parse().unwrap())
                }
            }
            (Ty::F64, TV::F8(f)) => M::F(*f),
            (Ty::Char, TV::C(c)) => M::S(c.to_string()),
            (Ty::Str, TV::S(s)) => M::S(s.clone()),
            (Ty::Unit, _) | (Ty::UnitS(_), _) | (Ty::Opt(_), TV::None) => M::Null,
            (Ty::Opt(t), TV::Some(v)) => self.go(t, v, single, value),
            (Ty::New(_, t), v) => self.go(t, v, deep, value),
            (Ty::Tuple(ts) | Ty::TupleS(_, ts), TV::Fields(vs)) => self.seq(ts, vs, deep, value),
            (Ty::Seq(t), TV::Seq(vs)) => M::Seq(vs.iter().map(|v| self.go(t, v, deep, value)).collect()),
            (Ty::Map(k, v), TV::Map(es)) => M::Map(es.iter().map(|(a, b)| (self.go(k, a, deep, value), self.go(v, b, deep, value))).collect()),
            (Ty::Struct(_, fs, ts), TV::Fields(vs)) => self.fields(fs, ts, vs, deep, value),
            (Ty::Enum(_, names, vts), TV::Var(i, p)) => {
                let value = value || (single != 0 && matches!(vts[*i], VTy::Tuple(_) | VTy::Struct(..)));
                let m = match (&vts[*i], &**p) {
                    (VTy::Unit, _) => return M::s(names[*i]),
                    (VTy::New(t), v) => self.go(t, v, deep, value),
                    (VTy::Tuple(ts), TV::Fields(vs)) => self.seq(ts, vs, deep, value),
                    (VTy::Struct(fs, ts), TV::Fields(vs)) => self.fields(fs, ts, vs, deep, value),
                    _ => bad(),
                };
                if single == 0 {
                    M::Tag(names[*i].to_string(), Box::new(m))
                } else {
                    M::Map(vec![(M::s(names[*i]), m)])
                }
            }
            (Ty::Any, TV::Any(m)) => m.clone(),
            (Ty::Bytes, TV::Bytes(b)) => {
                if !value {
                    self.bytes_in_text = true;
                }
                M::Seq(b.iter().map(|b| M::Int(*b as i128)).collect())
            }
            (Ty::Single(t), v) => self.go(t, v, single.max(1), value),
            (Ty::SingleRec(t), v) => self.go(t, v, 2, value),
            _ => bad(),
        }
    }
    fn seq(&mut self, ts: &[Ty], vs: &[TV], s: u8, value: bool) -> M {
        M::Seq(ts.iter().zip(vs).map(|(t, v)| self.go(t, v, s, value)).collect())
    }
    fn fields(&mut self, fs: Names, ts: &[Ty], vs: &[TV], s: u8, value: bool) -> M {
        let mut out = Vec::new();
        for ((f, t), v) in fs.iter().zip(ts).zip(vs) {
            if self.skip_none && matches!((t, v), (Ty::Opt(_), TV::None)) {
                continue;
            }
            out.push((M::s(f), self.go(t, v, s, value)));
        }
        M::Map(out)
    }
}

// --------------------------------------------------------------- generators

const FIELD: &[&str] = &["a", "b", "c", "key", "value", "name", "x1", "null", "true", "1", "é", "with space", "<<", "-", "a: b", "", " lead", "~", "0x1f", "日本", "type", "#c", "y", "longer_field_name_for_wrapping_purposes", "e3", "multi\nline", "'q'", "K"];
const VARIANT: &[&str] = &["A", "B", "C", "Unit", "New", "Tup", "Str", "null", "true", "int", "x.y", "a-b", "é", "日本", "with space", "str", "1", "~", "Value", "seq", "map", "float", "q'q", "LongVariantNameToBeDifferent", "a:b", "%", "<<", "x#y", "\u{1f600}"];
const TYPES: &[&str] = &["S", "T", "Outer", "Inner", "E", "Enum"];

fn pool(src: &'static [&'static str], salt: u64) -> Vec<Names> {
    let mut r = Rng::new(salt);
    let mut out: Vec<Names> = Vec::new();
    for i in 0..160 {
        let n = if i < 8 { i % 4 } else { r.range(1, 5) };
        let mut v: Vec<&'static str> = Vec::new();
        while v.len() < n {
            let s = *r.pick(src);
            if !v.contains(&s) {
                v.push(s);
            }
        }
        out.push(Box::leak(v.into_boxed_slice()));
    }
    out
}
pub fn field_names(r: &mut Rng) -> Names {
    static P: OnceLock<Vec<Names>> = OnceLock::new();
    *r.pick(P.get_or_init(|| pool(FIELD, 11)))
}
pub fn variant_names(r: &mut Rng) -> Names {
    static P: OnceLock<Vec<Names>> = OnceLock::new();
    loop {
        let n = *r.pick(P.get_or_init(|| pool(VARIANT, 12)));
        if !n.is_empty() {
            return n;
        }
    }
}

#[derive(Clone, Copy)]
pub struct TyCfg {
    pub any: bool,
    pub bytes: bool,
    pub single: bool,
    pub enums: u32,
    pub wide: bool,
    pub tags_in_any: bool,
}
impl Default for TyCfg {
    fn default() -> Self {
        TyCfg { any: true, bytes: false, single: false, enums: 2, wide: true, tags_in_any: true }
    }
}
pub fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitS(_) | Ty::Opt(_) | Ty::Any => true,
        Ty::New(_, t) | Ty::Single(t) | Ty::SingleRec(t) => nullable(t),
        _ => false,
    }
}
pub fn gen_ik(r: &mut Rng, wide: bool) -> IK {
    let all = [IK::I8, IK::I16, IK::I32, IK::I64, IK::U8, IK::U16, IK::U32, IK::U64, IK::I128, IK::U128];
    all[r.below(if wide { 10 } else { 8 })]
}
pub fn gen_scalar_ty(r: &mut Rng, c: &TyCfg) -> Ty {
    match r.below(12) {
        0 => Ty::Bool,
        1..=3 => Ty::Int(gen_ik(r, c.wide)),
        4 => Ty::F32,
        5 => Ty::F64,
        6 => Ty::Char,
        7 => Ty::Unit,
        8 => Ty::UnitS(*r.pick(TYPES)),
        _ => Ty::Str,
    }
}
fn list(r: &mut Rng, c: &TyCfg, depth: usize, n: usize) -> Vec<Ty> {
    (0..n).map(|_| gen_ty(r, c, depth)).collect()
}
pub fn gen_enum(r: &mut Rng, c: &TyCfg, depth: usize) -> Ty {
    let names = variant_names(r);
    let vts = names
        .iter()
        .map(|_| match r.below(5) {
            0 => VTy::Unit,
            1 | 2 => VTy::New(gen_ty(r, c, depth)),
            3 => {
                let n = *r.pick(&[0usize, 2, 2, 3]);
                VTy::Tuple(list(r, c, depth, n))
            }
            _ => {
                let f = field_names(r);
                VTy::Struct(f, list(r, c, depth, f.len()))
            }
        })
        .collect();
    Ty::Enum(*r.pick(TYPES), names, vts)
}
pub fn gen_ty(r: &mut Rng, c: &TyCfg, depth: usize) -> Ty {
    if depth == 0 {
        return gen_scalar_ty(r, c);
    }
    let d = depth - 1;
    match r.below(18 + c.enums as usize) {
        0..=4 => gen_scalar_ty(r, c),
        5 | 6 => loop {
            let t = gen_ty(r, c, d);
            if !nullable(&t) {
                break Ty::Opt(Box::new(t));
            }
        },
        7 => Ty::New(*r.pick(TYPES), Box::new(gen_ty(r, c, d))),
        8 => {
            let n = r.range(1, 3);
            Ty::Tuple(list(r, c, d, n))
        }
        9 => {
            let n = r.range(2, 3);
            Ty::TupleS(*r.pick(TYPES), list(r, c, d, n))
        }
        10..=12 => Ty::Seq(Box::new(gen_ty(r, c, d))),
        13 => {
            let k = if r.chance(2, 3) { gen_scalar_ty(r, c) } else { gen_ty(r, c, d.min(1)) };
            Ty::Map(Box::new(k), Box::new(gen_ty(r, c, d)))
        }
        14..=16 => {
            let f = field_names(r);
            Ty::Struct(*r.pick(TYPES), f, list(r, c, d, f.len()))
        }
        17 => {
            if c.single && r.bool() {
                let c1 = TyCfg { single: false, ..*c };
                let e = gen_enum(r, &c1, d);
                match r.below(3) {
                    0 => Ty::Single(Box::new(e)),
                    1 => Ty::Single(Box::new(Ty::Opt(Box::new(e)))),
                    _ => {
                        let c2 = TyCfg { any: false, ..c1 };
                        Ty::SingleRec(Box::new(gen_ty(r, &c2, depth)))
                    }
                }
            } else if c.bytes && r.bool() {
                Ty::Bytes
            } else if c.any {
                Ty::Any
            } else {
                gen_scalar_ty(r, c)
            }
        }
        _ => gen_enum(r, c, d),
    }
}

pub fn ik_range(k: IK) -> (i128, u128) {
    match k {
        IK::I8 => (i8::MIN as i128, i8::MAX as u128),
        IK::I16 => (i16::MIN as i128, i16::MAX as u128),
        IK::I32 => (i32::MIN as i128, i32::MAX as u128),
        IK::I64 => (i64::MIN as i128, i64::MAX as u128),
        IK::I128 => (i128::MIN, i128::MAX as u128),
        IK::U8 => (0, u8::MAX as u128),
        IK::U16 => (0, u16::MAX as u128),
        IK::U32 => (0, u32::MAX as u128),
        IK::U64 => (0, u64::MAX as u128),
        IK::U128 => (0, u128::MAX),
    }
}
fn wide_random(r: &mut Rng) -> u128 {
    let v = (r.next() as u128) << 64 | r.next() as u128;
    v >> r.below(128)
}
pub fn gen_ik_value(r: &mut Rng, k: IK) -> TV {
    let (lo, hi) = ik_range(k);
    if k == IK::U128 {
        return TV::U(match r.below(6) {
            0 => hi - r.below(3) as u128,
            1 => r.below(10) as u128,
            2 => (u64::MAX as u128).wrapping_add(r.below(4) as u128).wrapping_sub(1),
            3 => (i128::MAX as u128).wrapping_add(r.below(4) as u128).wrapping_sub(1),
            _ => wide_random(r),
        });
    }
    let hi = hi as i128;
    let v = match r.below(8) {
        0 => hi.saturating_sub(r.below(3) as i128),
        1 => lo.saturating_add(r.below(3) as i128),
        2 | 3 => r.below(10) as i128 - 5,
        4 => gen_int(r),
        5 => (u64::MAX as i128) + r.below(4) as i128 - 1,
        6 => (i64::MIN as i128) - r.below(4) as i128 + 1,
        _ => {
            let m = (wide_random(r) >> 1) as i128;
            if r.bool() {
                m
            } else {
                -m - 1
            }
        }
    };
    TV::I(v.clamp(lo, hi))
}
pub fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, 0.1, 1.0, 16777216.0, 16777218.0, 3.4e38, 1e10, 1e16, 1e17, 123456790.0]),
        1 => (r.below(2000) as f32 - 1000.0) / 8.0,
        2 => gen_f64(r) as f32,
        _ => f32::from_bits(r.next() as u32),
    }
}
pub fn gen_tv(r: &mut Rng, ty: &Ty, c: &TyCfg, fuel: &mut usize) -> TV {
    *fuel = fuel.saturating_sub(1);
    match ty {
        Ty::Bool => TV::B(r.bool()),
        Ty::Int(k) => gen_ik_value(r, *k),
        Ty::F32 => TV::F4(gen_f32(r)),
        Ty::F64 => TV::F8(gen_f64(r)),
        Ty::Char => TV::C(gen_char(r)),
        Ty::Str => TV::S(gen_string(r)),
        Ty::Unit | Ty::UnitS(_) => TV::Unit,
        Ty::Opt(t) => {
            if r.chance(1, 3) {
                TV::None
            } else {
                TV::Some(Box::new(gen_tv(r, t, c, fuel)))
            }
        }
        Ty::New(_, t) | Ty::Single(t) | Ty::SingleRec(t) => gen_tv(r, t, c, fuel),
        Ty::Tuple(ts) | Ty::TupleS(_, ts) | Ty::Struct(_, _, ts) => TV::Fields(ts.iter().map(|t| gen_tv(r, t, c, fuel)).collect()),
        Ty::Seq(t) => {
            let n = count(r, *fuel);
            TV::Seq((0..n).map(|_| gen_tv(r, t, c, fuel)).collect())
        }
        Ty::Map(k, v) => {
            let n = count(r, *fuel);
            let mut seen = std::collections::HashSet::new();
            let mut out = Vec::new();
            for _ in 0..n {
                let a = gen_tv(r, k, c, fuel);
                if seen.insert(Expect::new(false, false).model(k, &a).canon()) {
                    let b = gen_tv(r, v, c, fuel);
                    out.push((a, b));
                }
            }
            TV::Map(out)
        }
        Ty::Enum(_, _, vts) => {
            let i = r.below(vts.len());
            let p = match &vts[i] {
                VTy::Unit => TV::Unit,
                VTy::New(t) => gen_tv(r, t, c, fuel),
                VTy::Tuple(ts) | VTy::Struct(_, ts) => TV::Fields(ts.iter().map(|t| gen_tv(r, t, c, fuel)).collect()),
            };
            TV::Var(i, Box::new(p))
        }
        Ty::Any => {
            let cfg = GenCfg { tags: c.tags_in_any, max_depth: 3, ..GenCfg::default() };
            let mut f = 6;
            TV::Any(gen_m_at(r, &cfg, 2, &mut f, false))
        }
        Ty::Bytes => {
            let n = r.below(6);
            TV::Bytes((0..n).map(|_| r.next() as u8).collect())
        }
    }
}
fn count(r: &mut Rng, fuel: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1..=4 => 1,
        5..=7 => 2,
        8 => 3,
        _ => r.below(12),
    }
    .min(fuel)
}
/// Does any tagged or any-value occur below a recursive single-key-map wrapper?
pub fn contains(ty: &Ty, f: &dyn Fn(&Ty) -> bool) -> bool {
    if f(ty) {
        return true;
    }
    match ty {
        Ty::Opt(t) | Ty::New(_, t) | Ty::Seq(t) | Ty::Single(t) | Ty::SingleRec(t) => contains(t, f),
        Ty::Map(a, b) => contains(a, f) || contains(b, f),
        Ty::Tuple(ts) | Ty::TupleS(_, ts) | Ty::Struct(_, _, ts) => ts.iter().any(|t| contains(t, f)),
        Ty::Enum(_, _, vts) => vts.iter().any(|v| match v {
            VTy::Unit => false,
            VTy::New(t) => contains(t, f),
            VTy::Tuple(ts) | VTy::Struct(_, ts) => ts.iter().any(|t| contains(t, f)),
        }),
        _ => false,
    }
}
