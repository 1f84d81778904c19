//! Stands in for rust-protobuf 2.x: the part of its interface and wire format that generated code and /repo use.

use std::fmt;

#[derive(Debug)]
pub enum ProtobufError {
    IoError(std::io::Error),
    WireError(&'static str),
    Utf8(std::string::FromUtf8Error),
}
impl fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ProtobufError {}
pub type ProtobufResult<T> = Result<T, ProtobufError>;

/// Depth of nested messages that a reader accepts, as in rust-protobuf.
const RECURSION_LIMIT: u32 = 100;

pub struct CodedInputStream<'a> {
    buf: &'a [u8],
    pos: usize,
    depth: u32,
}

fn eof<T>() -> ProtobufResult<T> {
    Err(ProtobufError::WireError("unexpected EOF"))
}

impl<'a> CodedInputStream<'a> {
    pub fn from_bytes(buf: &'a [u8]) -> Self {
        CodedInputStream { buf, pos: 0, depth: 0 }
    }
    pub fn eof(&self) -> bool {
        self.pos >= self.buf.len()
    }
    pub fn varint(&mut self) -> ProtobufResult<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let Some(b) = self.buf.get(self.pos) else { return eof() };
            self.pos += 1;
            v |= u64::from(b & 0x7f).wrapping_shl(7 * i);
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(ProtobufError::WireError("incorrect varint"))
    }
    /// Field number and wire type.
    pub fn tag(&mut self) -> ProtobufResult<(u32, u8)> {
        let t = self.varint()? as u32;
        let (n, w) = (t >> 3, (t & 7) as u8);
        if n == 0 || w > 5 {
            return Err(ProtobufError::WireError("incorrect tag"));
        }
        Ok((n, w))
    }
    fn take(&mut self, n: usize) -> ProtobufResult<&'a [u8]> {
        match self.pos.checked_add(n) {
            Some(e) if e <= self.buf.len() => {
                let s = &self.buf[self.pos..e];
                self.pos = e;
                Ok(s)
            }
            _ => eof(),
        }
    }
    pub fn fixed32(&mut self) -> ProtobufResult<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn fixed64(&mut self) -> ProtobufResult<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn bytes(&mut self) -> ProtobufResult<Vec<u8>> {
        let n = self.varint()? as u32 as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn string(&mut self) -> ProtobufResult<String> {
        String::from_utf8(self.bytes()?).map_err(ProtobufError::Utf8)
    }
    pub fn merge<M: Message>(&mut self, m: &mut M) -> ProtobufResult<()> {
        let n = self.varint()? as u32 as usize;
        let inner = self.take(n)?;
        if self.depth + 1 >= RECURSION_LIMIT {
            return Err(ProtobufError::WireError("over recursion limit"));
        }
        let mut s = CodedInputStream { buf: inner, pos: 0, depth: self.depth + 1 };
        m.merge_from(&mut s)
    }
    pub fn message<M: Message>(&mut self) -> ProtobufResult<M> {
        let mut m = M::new();
        self.merge(&mut m)?;
        Ok(m)
    }
    /// Reads an unknown field, tag included in what is kept.
    pub fn unknown(&mut self, n: u32, w: u8, keep: &mut UnknownFields) -> ProtobufResult<()> {
        let mut o = CodedOutputStream::default();
        o.tag(n, w);
        match w {
            0 => {
                let v = self.varint()?;
                o.raw_varint(v);
            }
            1 => {
                let v = self.fixed64()?;
                o.0.extend(v.to_le_bytes());
            }
            2 => {
                let v = self.bytes()?;
                o.raw_varint(v.len() as u64);
                o.0.extend(v);
            }
            3 => loop {
                let (n2, w2) = self.tag()?;
                if w2 == 4 {
                    return Ok(());
                }
                self.unknown(n2, w2, &mut UnknownFields::default())?;
            },
            5 => {
                let v = self.fixed32()?;
                o.0.extend(v.to_le_bytes());
            }
            _ => return Err(ProtobufError::WireError("unexpected wire type")),
        }
        keep.0.extend(o.0);
        Ok(())
    }
}

pub fn unexpected_wire_type<T>() -> ProtobufResult<T> {
    Err(ProtobufError::WireError("unexpected wire type"))
}

#[derive(Default)]
pub struct CodedOutputStream(pub Vec<u8>);
impl CodedOutputStream {
    pub fn raw_varint(&mut self, mut v: u64) {
        while v >= 0x80 {
            self.0.push((v as u8) | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    pub fn tag(&mut self, n: u32, w: u8) {
        self.raw_varint(u64::from(n << 3 | u32::from(w)));
    }
    pub fn varint(&mut self, n: u32, v: u64) {
        self.tag(n, 0);
        self.raw_varint(v);
    }
    pub fn fixed32(&mut self, n: u32, v: u32) {
        self.tag(n, 5);
        self.0.extend(v.to_le_bytes());
    }
    pub fn fixed64(&mut self, n: u32, v: u64) {
        self.tag(n, 1);
        self.0.extend(v.to_le_bytes());
    }
    pub fn bytes(&mut self, n: u32, v: &[u8]) {
        self.tag(n, 2);
        self.raw_varint(v.len() as u64);
        self.0.extend_from_slice(v);
    }
    pub fn message<M: Message + ?Sized>(&mut self, n: u32, m: &M) {
        let mut o = CodedOutputStream::default();
        m.write(&mut o);
        self.bytes(n, &o.0);
    }
}

/// Fields that the schema does not know: kept as they came.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct UnknownFields(pub Vec<u8>);

pub trait Message: fmt::Debug + 'static {
    fn new() -> Self
    where
        Self: Sized;
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> ProtobufResult<()>;
    fn write(&self, os: &mut CodedOutputStream);

    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()> {
        self.merge_from(&mut CodedInputStream::from_bytes(bytes))
    }
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>> {
        let mut o = CodedOutputStream::default();
        self.write(&mut o);
        Ok(o.0)
    }
    fn compute_size(&self) -> u32 {
        let mut o = CodedOutputStream::default();
        self.write(&mut o);
        o.0.len() as u32
    }
    fn parse_from_bytes(bytes: &[u8]) -> ProtobufResult<Self>
    where
        Self: Sized,
    {
        let mut m = Self::new();
        m.merge_from_bytes(bytes)?;
        Ok(m)
    }
}

/// A message field that may be absent.
#[derive(Clone, Debug, PartialEq)]
pub struct SingularPtrField<T>(Option<Box<T>>);
impl<T> Default for SingularPtrField<T> {
    fn default() -> Self {
        SingularPtrField(None)
    }
}
impl<T> SingularPtrField<T> {
    pub fn some(v: T) -> Self {
        SingularPtrField(Some(Box::new(v)))
    }
    pub fn none() -> Self {
        SingularPtrField(None)
    }
    pub fn is_some(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn as_ref(&self) -> Option<&T> {
        self.0.as_deref()
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        self.0.as_deref_mut()
    }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> SingularPtrField<U> {
        SingularPtrField(self.0.map(|x| Box::new(f(*x))))
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take().map(|b| *b)
    }
    pub fn into_option(self) -> Option<T> {
        self.0.map(|b| *b)
    }
    pub fn clear(&mut self) {
        self.0 = None;
    }
    pub fn get_or_default(&mut self) -> &mut T
    where
        T: Default,
    {
        self.0.get_or_insert_with(Default::default)
    }
}

/// A repeated field.
#[derive(Clone, Debug, PartialEq)]
pub struct RepeatedField<T>(Vec<T>);
impl<T> Default for RepeatedField<T> {
    fn default() -> Self {
        RepeatedField(Vec::new())
    }
}
impl<T> From<Vec<T>> for RepeatedField<T> {
    fn from(v: Vec<T>) -> Self {
        RepeatedField(v)
    }
}
impl<T> From<RepeatedField<T>> for Vec<T> {
    fn from(v: RepeatedField<T>) -> Self {
        v.0
    }
}
impl<T> std::ops::Deref for RepeatedField<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}
impl<T> std::ops::DerefMut for RepeatedField<T> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
impl<T> IntoIterator for RepeatedField<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a RepeatedField<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T> RepeatedField<T> {
    pub fn from_vec(v: Vec<T>) -> Self {
        RepeatedField(v)
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
}
