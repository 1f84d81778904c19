//! Stands in for cbor-codec: generic CBOR values, encoder and decoder.

pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Tag {
        Unassigned(u64),
        Other(u64),
    }
    impl Tag {
        pub fn of(v: u64) -> Tag {
            // The tags that cbor-codec gives a name to.
            match v {
                0..=5 | 21..=24 | 32..=36 | 55799 => Tag::Other(v),
                _ => Tag::Unassigned(v),
            }
        }
        pub fn to(self) -> u64 {
            match self {
                Tag::Unassigned(v) | Tag::Other(v) => v,
            }
        }
    }
}

pub mod value {
    use super::types::Tag;
    use std::collections::{BTreeMap, LinkedList};

    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Array(Vec<Value>),
        Bool(bool),
        Break,
        Bytes(Bytes),
        F32(f32),
        F64(f64),
        Int(Int),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        Map(BTreeMap<Key, Value>),
        Null,
        Simple(u8),
        Tagged(Tag, Box<Value>),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
        Undefined,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Int {
        Neg(u64),
        Pos(u64),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Bytes {
        Bytes(Vec<u8>),
        Chunks(LinkedList<Vec<u8>>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Text {
        Text(String),
        Chunks(LinkedList<String>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key {
        Bool(bool),
        Bytes(Bytes),
        Int(Int),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    max_nesting: usize,
    max_len: usize,
}
impl Default for Config {
    fn default() -> Config {
        Config { max_nesting: 16, max_len: 0x1000_0000 }
    }
}

pub mod encoder {
    use super::value::{Bytes, Int, Key, Text, Value};
    use std::io::Write;

    #[derive(Debug)]
    pub enum EncodeError {
        IoError(std::io::Error),
        InvalidValue,
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EncodeError {}
    impl From<std::io::Error> for EncodeError {
        fn from(e: std::io::Error) -> Self {
            EncodeError::IoError(e)
        }
    }
    pub type EncodeResult = Result<(), EncodeError>;

    pub struct Encoder<W>(W);
    impl<W: Write> Encoder<W> {
        pub fn into_writer(self) -> W {
            self.0
        }
        fn head(&mut self, major: u8, v: u64) -> EncodeResult {
            let m = major << 5;
            let mut b = vec![];
            match v {
                0..=23 => b.push(m | v as u8),
                24..=0xff => b.extend([m | 24, v as u8]),
                0x100..=0xffff => {
                    b.push(m | 25);
                    b.extend((v as u16).to_be_bytes());
                }
                0x1_0000..=0xffff_ffff => {
                    b.push(m | 26);
                    b.extend((v as u32).to_be_bytes());
                }
                _ => {
                    b.push(m | 27);
                    b.extend(v.to_be_bytes());
                }
            }
            Ok(self.0.write_all(&b)?)
        }
        fn raw(&mut self, b: &[u8]) -> EncodeResult {
            Ok(self.0.write_all(b)?)
        }
        fn int(&mut self, v: i64) -> EncodeResult {
            if v < 0 { self.head(1, !(v as u64)) } else { self.head(0, v as u64) }
        }
        fn text(&mut self, t: &Text) -> EncodeResult {
            match t {
                Text::Text(s) => {
                    self.head(3, s.len() as u64)?;
                    self.raw(s.as_bytes())
                }
                Text::Chunks(c) => {
                    self.raw(&[0x7f])?;
                    for s in c {
                        self.head(3, s.len() as u64)?;
                        self.raw(s.as_bytes())?;
                    }
                    self.raw(&[0xff])
                }
            }
        }
        fn bytes(&mut self, t: &Bytes) -> EncodeResult {
            match t {
                Bytes::Bytes(s) => {
                    self.head(2, s.len() as u64)?;
                    self.raw(s)
                }
                Bytes::Chunks(c) => {
                    self.raw(&[0x5f])?;
                    for s in c {
                        self.head(2, s.len() as u64)?;
                        self.raw(s)?;
                    }
                    self.raw(&[0xff])
                }
            }
        }
    }

    pub struct GenericEncoder<W>(Encoder<W>);
    impl<W: Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self {
            GenericEncoder(Encoder(w))
        }
        pub fn into_inner(self) -> Encoder<W> {
            self.0
        }
        pub fn value(&mut self, v: &Value) -> EncodeResult {
            let e = &mut self.0;
            match v {
                Value::Array(a) => {
                    e.head(4, a.len() as u64)?;
                    a.iter().try_for_each(|x| self.value(x))
                }
                Value::Bool(b) => e.raw(&[0xf4 | u8::from(*b)]),
                Value::Bytes(b) => e.bytes(b),
                Value::F32(f) => {
                    e.raw(&[0xfa])?;
                    e.raw(&f.to_be_bytes())
                }
                Value::F64(f) => {
                    e.raw(&[0xfb])?;
                    e.raw(&f.to_be_bytes())
                }
                Value::Int(Int::Neg(n)) => e.head(1, *n),
                Value::Int(Int::Pos(n)) => e.head(0, *n),
                Value::I8(i) => e.int((*i).into()),
                Value::I16(i) => e.int((*i).into()),
                Value::I32(i) => e.int((*i).into()),
                Value::I64(i) => e.int(*i),
                Value::U8(i) => e.head(0, (*i).into()),
                Value::U16(i) => e.head(0, (*i).into()),
                Value::U32(i) => e.head(0, (*i).into()),
                Value::U64(i) => e.head(0, *i),
                Value::Map(m) => {
                    e.head(5, m.len() as u64)?;
                    for (k, x) in m {
                        self.key(k)?;
                        self.value(x)?;
                    }
                    Ok(())
                }
                Value::Null => e.raw(&[0xf6]),
                Value::Undefined => e.raw(&[0xf7]),
                Value::Simple(n) if *n < 20 => e.raw(&[0xe0 | n]),
                Value::Simple(n) => e.raw(&[0xf8, *n]),
                Value::Tagged(t, x) => {
                    e.head(6, t.to())?;
                    self.value(x)
                }
                Value::Text(t) => e.text(t),
                Value::Break => Err(EncodeError::InvalidValue),
            }
        }
        fn key(&mut self, k: &Key) -> EncodeResult {
            let e = &mut self.0;
            match k {
                Key::Bool(b) => e.raw(&[0xf4 | u8::from(*b)]),
                Key::Bytes(b) => e.bytes(b),
                Key::Int(Int::Neg(n)) => e.head(1, *n),
                Key::Int(Int::Pos(n)) => e.head(0, *n),
                Key::I8(i) => e.int((*i).into()),
                Key::I16(i) => e.int((*i).into()),
                Key::I32(i) => e.int((*i).into()),
                Key::I64(i) => e.int(*i),
                Key::U8(i) => e.head(0, (*i).into()),
                Key::U16(i) => e.head(0, (*i).into()),
                Key::U32(i) => e.head(0, (*i).into()),
                Key::U64(i) => e.head(0, *i),
                Key::Text(t) => e.text(t),
            }
        }
    }
}

pub mod decoder {
    use super::Config;
    use super::types::Tag;
    use super::value::{Bytes, Int, Key, Text, Value};
    use std::collections::{BTreeMap, LinkedList};
    use std::io::Read;

    #[derive(Debug)]
    pub enum DecodeError {
        DuplicateKey,
        InvalidKey,
        InvalidUtf8,
        IoError(std::io::Error),
        TooLong,
        TooNested,
        UnexpectedBreak,
        UnexpectedType(u8),
    }
    impl std::fmt::Display for DecodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for DecodeError {}
    impl From<std::io::Error> for DecodeError {
        fn from(e: std::io::Error) -> Self {
            DecodeError::IoError(e)
        }
    }
    pub type DecodeResult<T> = Result<T, DecodeError>;

    pub struct GenericDecoder<R> {
        cfg: Config,
        r: R,
    }
    impl<R: Read> GenericDecoder<R> {
        pub fn new(cfg: Config, r: R) -> Self {
            GenericDecoder { cfg, r }
        }
        fn byte(&mut self) -> DecodeResult<u8> {
            let mut b = [0];
            self.r.read_exact(&mut b)?;
            Ok(b[0])
        }
        fn arg(&mut self, info: u8) -> DecodeResult<u64> {
            Ok(match info {
                0..=23 => info.into(),
                24..=27 => {
                    let n = 1 << (info - 24);
                    let mut b = [0u8; 8];
                    self.r.read_exact(&mut b[8 - n..])?;
                    u64::from_be_bytes(b)
                }
                _ => return Err(DecodeError::UnexpectedType(info)),
            })
        }
        fn blob(&mut self, n: u64) -> DecodeResult<Vec<u8>> {
            if n > self.cfg.max_len as u64 {
                return Err(DecodeError::TooLong);
            }
            let mut v = Vec::new();
            (&mut self.r).take(n).read_to_end(&mut v)?;
            if (v.len() as u64) < n {
                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
            }
            Ok(v)
        }
        pub fn value(&mut self) -> DecodeResult<Value> {
            let l = self.cfg.max_nesting;
            self.at(l)
        }
        fn at(&mut self, level: usize) -> DecodeResult<Value> {
            let b = self.byte()?;
            let (major, info) = (b >> 5, b & 31);
            if level == 0 {
                return Err(DecodeError::TooNested);
            }
            Ok(match (major, info) {
                (0, 24) | (0, 0..=23) => Value::U8(self.arg(info)? as u8),
                (0, 25) => Value::U16(self.arg(info)? as u16),
                (0, 26) => Value::U32(self.arg(info)? as u32),
                (0, _) => Value::U64(self.arg(info)?),
                (1, _) => {
                    let n = self.arg(info)?;
                    match (info, n) {
                        (0..=24, 0..=127) => Value::I8(!(n as i8)),
                        (0..=25, 0..=0x7fff) => Value::I16(!(n as i16)),
                        (0..=26, 0..=0x7fff_ffff) => Value::I32(!(n as i32)),
                        (_, 0..=0x7fff_ffff_ffff_ffff) => Value::I64(!(n as i64)),
                        _ => Value::Int(Int::Neg(n)),
                    }
                }
                (2, 31) => {
                    let mut c = LinkedList::new();
                    while let Some(i) = self.chunk(2)? {
                        c.push_back(self.blob(i)?);
                    }
                    Value::Bytes(Bytes::Chunks(c))
                }
                (2, _) => {
                    let n = self.arg(info)?;
                    Value::Bytes(Bytes::Bytes(self.blob(n)?))
                }
                (3, 31) => {
                    let mut c = LinkedList::new();
                    while let Some(i) = self.chunk(3)? {
                        c.push_back(String::from_utf8(self.blob(i)?).map_err(|_| DecodeError::InvalidUtf8)?);
                    }
                    Value::Text(Text::Chunks(c))
                }
                (3, _) => {
                    let n = self.arg(info)?;
                    Value::Text(Text::Text(String::from_utf8(self.blob(n)?).map_err(|_| DecodeError::InvalidUtf8)?))
                }
                (4, 31) => {
                    let mut v = vec![];
                    loop {
                        match self.at(level - 1)? {
                            Value::Break => break,
                            x => v.push(x),
                        }
                    }
                    Value::Array(v)
                }
                (4, _) => {
                    let n = self.arg(info)?;
                    if n > self.cfg.max_len as u64 {
                        return Err(DecodeError::TooLong);
                    }
                    let mut v = vec![];
                    for _ in 0..n {
                        match self.at(level - 1)? {
                            Value::Break => return Err(DecodeError::UnexpectedBreak),
                            x => v.push(x),
                        }
                    }
                    Value::Array(v)
                }
                (5, _) => {
                    let n = if info == 31 { None } else { Some(self.arg(info)?) };
                    let mut m = BTreeMap::new();
                    let mut i = 0;
                    while n.is_none_or(|n| i < n) {
                        i += 1;
                        let k = match self.at(level - 1)? {
                            Value::Break if n.is_none() => break,
                            Value::Bool(b) => Key::Bool(b),
                            Value::Bytes(b) => Key::Bytes(b),
                            Value::Int(b) => Key::Int(b),
                            Value::I8(b) => Key::I8(b),
                            Value::I16(b) => Key::I16(b),
                            Value::I32(b) => Key::I32(b),
                            Value::I64(b) => Key::I64(b),
                            Value::U8(b) => Key::U8(b),
                            Value::U16(b) => Key::U16(b),
                            Value::U32(b) => Key::U32(b),
                            Value::U64(b) => Key::U64(b),
                            Value::Text(b) => Key::Text(b),
                            _ => return Err(DecodeError::InvalidKey),
                        };
                        if m.contains_key(&k) {
                            return Err(DecodeError::DuplicateKey);
                        }
                        match self.at(level - 1)? {
                            Value::Break => return Err(DecodeError::UnexpectedBreak),
                            x => m.insert(k, x),
                        };
                    }
                    Value::Map(m)
                }
                (6, _) => {
                    let t = Tag::of(self.arg(info)?);
                    match self.at(level - 1)? {
                        Value::Break => return Err(DecodeError::UnexpectedBreak),
                        x => Value::Tagged(t, Box::new(x)),
                    }
                }
                (_, 20) => Value::Bool(false),
                (_, 21) => Value::Bool(true),
                (_, 22) => Value::Null,
                (_, 23) => Value::Undefined,
                (_, 24) => Value::Simple(self.byte()?),
                (_, 25) => {
                    let h = self.arg(25)? as u16;
                    let (s, e, m) = (h >> 15, (h >> 10) & 31, f32::from(h & 0x3ff));
                    let f = match e {
                        0 => m * (2f32).powi(-24),
                        31 if m == 0.0 => f32::INFINITY,
                        31 => f32::NAN,
                        _ => (m + 1024.0) * (2f32).powi(i32::from(e) - 25),
                    };
                    Value::F32(if s == 1 { -f } else { f })
                }
                (_, 26) => Value::F32(f32::from_bits(self.arg(26)? as u32)),
                (_, 27) => Value::F64(f64::from_bits(self.arg(27)?)),
                (_, 31) => Value::Break,
                (_, n) if n < 20 => Value::Simple(n),
                _ => return Err(DecodeError::UnexpectedType(b)),
            })
        }
        fn chunk(&mut self, major: u8) -> DecodeResult<Option<u64>> {
            let b = self.byte()?;
            if b == 0xff {
                Ok(None)
            } else if b >> 5 == major && b & 31 < 28 {
                Ok(Some(self.arg(b & 31)?))
            } else {
                Err(DecodeError::UnexpectedType(b))
            }
        }
    }
}

pub use decoder::GenericDecoder;
pub use encoder::GenericEncoder;
