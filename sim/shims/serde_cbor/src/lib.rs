//! Stands in for serde_cbor 0.11: its `Value`, over the encoder and decoder of ciborium.

use serde::{Serialize, de::DeserializeOwned};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug)]
pub enum Value {
    Null,
    Bool(bool),
    Integer(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Array(Vec<Value>),
    Map(BTreeMap<Value, Value>),
    Tag(u64, Box<Value>),
    #[doc(hidden)]
    __Hidden,
}

impl PartialEq for Value {
    fn eq(&self, o: &Value) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
}
impl Eq for Value {}
impl PartialOrd for Value {
    fn partial_cmp(&self, o: &Value) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
/// The canonical order: major type, then length, then value.
impl Ord for Value {
    fn cmp(&self, o: &Value) -> std::cmp::Ordering {
        use Value::*;
        if self.major() != o.major() {
            return self.major().cmp(&o.major());
        }
        match (self, o) {
            (Integer(a), Integer(b)) => a.abs().cmp(&b.abs()),
            (Bytes(a), Bytes(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Text(a), Text(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Array(a), Array(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Map(a), Map(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Bytes(a), Bytes(b)) => a.cmp(b),
            (Text(a), Text(b)) => a.cmp(b),
            (a, b) => to_vec(a).unwrap_or_default().cmp(&to_vec(b).unwrap_or_default()),
        }
    }
}
impl Value {
    fn major(&self) -> u8 {
        match self {
            Value::Null | Value::Bool(_) | Value::Float(_) => 7,
            Value::Integer(v) => u8::from(*v < 0),
            Value::Tag(..) => 6,
            Value::Bytes(_) => 2,
            Value::Text(_) => 3,
            Value::Array(_) => 4,
            Value::Map(_) => 5,
            Value::__Hidden => unreachable!(),
        }
    }
    fn to_c(&self) -> Result<ciborium::Value> {
        use ciborium::Value as C;
        Ok(match self {
            Value::Null => C::Null,
            Value::Bool(b) => C::Bool(*b),
            Value::Integer(i) => C::Integer((*i).try_into().map_err(|_| Error("The number can't be stored in CBOR".into()))?),
            Value::Float(f) => C::Float(*f),
            Value::Bytes(b) => C::Bytes(b.clone()),
            Value::Text(t) => C::Text(t.clone()),
            Value::Array(a) => C::Array(a.iter().map(Value::to_c).collect::<Result<_>>()?),
            Value::Map(m) => C::Map(m.iter().map(|(k, v)| Ok((k.to_c()?, v.to_c()?))).collect::<Result<_>>()?),
            // serde_cbor writes tags only with its `tags` feature.
            Value::Tag(_, v) => v.to_c()?,
            Value::__Hidden => unreachable!(),
        })
    }
    fn from_c(c: ciborium::Value) -> Result<Value> {
        use ciborium::Value as C;
        Ok(match c {
            C::Null => Value::Null,
            C::Bool(b) => Value::Bool(b),
            C::Integer(i) => Value::Integer(i.into()),
            C::Float(f) => Value::Float(f),
            C::Bytes(b) => Value::Bytes(b),
            C::Text(t) => Value::Text(t),
            C::Array(a) => Value::Array(a.into_iter().map(Value::from_c).collect::<Result<_>>()?),
            C::Map(m) => Value::Map(m.into_iter().map(|(k, v)| Ok((Value::from_c(k)?, Value::from_c(v)?))).collect::<Result<_>>()?),
            // Without its `tags` feature serde_cbor skips tags.
            C::Tag(_, v) => Value::from_c(*v)?,
            _ => return Err(Error("unknown value".into())),
        })
    }
}

impl Serialize for Value {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.to_c().map_err(serde::ser::Error::custom)?.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Value {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        Value::from_c(ciborium::Value::deserialize(d)?).map_err(serde::de::Error::custom)
    }
}

pub fn to_vec<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>> {
    let mut o = Vec::new();
    ciborium::into_writer(v, &mut o).map_err(|e| Error(e.to_string()))?;
    Ok(o)
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T> {
    let mut r = b;
    let v = ciborium::de::from_reader_with_recursion_limit(&mut r, 128).map_err(|e| Error(e.to_string()))?;
    if r.is_empty() { Ok(v) } else { Err(Error("trailing data".into())) }
}

pub mod value {
    pub use super::Value;
    use super::*;
    pub fn to_value<T: Serialize>(v: T) -> Result<Value> {
        Value::from_c(ciborium::Value::serialized(&v).map_err(|e| Error(e.to_string()))?)
    }
    pub fn from_value<T: DeserializeOwned>(v: Value) -> Result<T> {
        T::deserialize(v)
    }
}

impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Error {
        Error(m.to_string())
    }
}

/// A value deserializes by visiting what it holds, whatever was asked for.
impl<'de> serde::Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(b),
            Value::Integer(i) => match (u64::try_from(i), i64::try_from(i)) {
                (Ok(u), _) => v.visit_u64(u),
                (_, Ok(i)) => v.visit_i64(i),
                _ => v.visit_i128(i),
            },
            Value::Float(f) => v.visit_f64(f),
            Value::Bytes(b) => v.visit_byte_buf(b),
            Value::Text(t) => v.visit_string(t),
            Value::Array(a) => {
                let mut d = serde::de::value::SeqDeserializer::new(a.into_iter());
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Map(m) => {
                let mut d = serde::de::value::MapDeserializer::new(m.into_iter());
                let r = v.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Tag(_, b) => b.deserialize_any(v),
            Value::__Hidden => unreachable!(),
        }
    }
    fn deserialize_option<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self {
            Value::Null => v.visit_none(),
            x => v.visit_some(x),
        }
    }
    fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        use serde::de::IntoDeserializer;
        match self {
            Value::Text(t) => v.visit_enum(t.into_deserializer()),
            Value::Map(m) => v.visit_enum(serde::de::value::MapAccessDeserializer::new(serde::de::value::MapDeserializer::new(m.into_iter()))),
            _ => Err(Error("invalid type for an enum".into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

impl<'de> serde::de::IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}
pub mod error {
    pub use super::{Error, Result};
}

macro_rules! ints {
    ($($t:ty)*) => { $(impl From<$t> for Value { fn from(v: $t) -> Value { Value::Integer(v.into()) } })* };
}
ints!(i8 i16 i32 i64 u8 u16 u32 u64);
impl From<i128> for Value {
    fn from(v: i128) -> Value {
        Value::Integer(v)
    }
}
impl From<bool> for Value {
    fn from(v: bool) -> Value {
        Value::Bool(v)
    }
}
impl From<f64> for Value {
    fn from(v: f64) -> Value {
        Value::Float(v)
    }
}
impl From<f32> for Value {
    fn from(v: f32) -> Value {
        Value::Float(v.into())
    }
}
impl From<String> for Value {
    fn from(v: String) -> Value {
        Value::Text(v)
    }
}
impl From<Vec<u8>> for Value {
    fn from(v: Vec<u8>) -> Value {
        Value::Bytes(v)
    }
}
impl From<Vec<Value>> for Value {
    fn from(v: Vec<Value>) -> Value {
        Value::Array(v)
    }
}
impl From<BTreeMap<Value, Value>> for Value {
    fn from(v: BTreeMap<Value, Value>) -> Value {
        Value::Map(v)
    }
}
