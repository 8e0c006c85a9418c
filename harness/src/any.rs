//! Visitors that observe what the deserializer hands out.
use crate::model::M;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize;
use std::fmt;

/// The model of whatever `deserialize_any` reports. Integers wider than i128
/// become strings with an unmistakable prefix.
#[derive(Clone, Debug)]
pub struct AnyM(pub M);
impl<'de> Deserialize<'de> for AnyM {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(AnyVisitor).map(AnyM)
    }
}
pub struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = M;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<M, E> {
        Ok(M::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<M, E> {
        Ok(M::Int(v as i128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<M, E> {
        Ok(M::Int(v as i128))
    }
    fn visit_i128<E>(self, v: i128) -> Result<M, E> {
        Ok(M::Int(v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<M, E> {
        Ok(match i128::try_from(v) {
            Ok(v) => M::Int(v),
            Err(_) => M::S(format!("\u{1}u128 {v}")),
        })
    }
    fn visit_f64<E>(self, v: f64) -> Result<M, E> {
        Ok(M::F(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<M, E> {
        Ok(M::S(v.to_string()))
    }
    fn visit_unit<E>(self) -> Result<M, E> {
        Ok(M::Null)
    }
    fn visit_none<E>(self) -> Result<M, E> {
        Ok(M::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<M, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        let mut v = Vec::new();
        while let Some(AnyM(m)) = a.next_element()? {
            v.push(m);
        }
        Ok(M::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<M, A::Error> {
        let mut v = Vec::new();
        while let Some(AnyM(k)) = a.next_key()? {
            let AnyM(x) = a.next_value()?;
            v.push((k, x));
        }
        Ok(M::Map(v))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<M, A::Error> {
        let (tag, v): (String, _) = a.variant()?;
        let AnyM(m) = v.newtype_variant()?;
        Ok(M::Tag(tag, Box::new(m)))
    }
}

/// Read the child at a path (entry index in sequences and mappings), skip the rest.
pub struct Pick<'p>(pub &'p [usize]);
impl<'de, 'p> DeserializeSeed<'de> for Pick<'p> {
    type Value = Option<M>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<M>, D::Error> {
        if self.0.is_empty() {
            d.deserialize_any(AnyVisitor).map(Some)
        } else {
            d.deserialize_any(self)
        }
    }
}
impl<'de, 'p> Visitor<'de> for Pick<'p> {
    type Value = Option<M>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a container")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Option<M>, A::Error> {
        let mut out = None;
        let mut i = 0;
        loop {
            if i == self.0[0] {
                match a.next_element_seed(Pick(&self.0[1..]))? {
                    Some(m) => out = m,
                    None => break,
                }
            } else if a.next_element::<IgnoredAny>()?.is_none() {
                break;
            }
            i += 1;
        }
        Ok(out)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Option<M>, A::Error> {
        let mut out = None;
        let mut i = 0;
        while a.next_key::<IgnoredAny>()?.is_some() {
            if i == self.0[0] {
                out = a.next_value_seed(Pick(&self.0[1..]))?;
            } else {
                a.next_value::<IgnoredAny>()?;
            }
            i += 1;
        }
        Ok(out)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Option<M>, A::Error> {
        let (_, v): (IgnoredAny, _) = a.variant()?;
        v.newtype_variant_seed(self)
    }
}

/// A mapping read through `deserialize_map` as pairs in order.
pub struct Pairs<T>(pub Vec<(T, T)>);
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Pairs<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<T>(std::marker::PhantomData<T>);
        impl<'de, T: Deserialize<'de>> Visitor<'de> for V<T> {
            type Value = Vec<(T, T)>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = Vec::new();
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(v)
            }
        }
        d.deserialize_map(V(std::marker::PhantomData)).map(Pairs)
    }
}

pub fn at_path<'a>(m: &'a M, path: &[usize]) -> Option<&'a M> {
    if path.is_empty() {
        return Some(m);
    }
    match m {
        M::Tag(_, m) => at_path(m, path),
        M::Seq(v) => at_path(v.get(path[0])?, &path[1..]),
        M::Map(v) => at_path(&v.get(path[0])?.1, &path[1..]),
        _ => None,
    }
}
pub fn _unused<E: de::Error>() {}
