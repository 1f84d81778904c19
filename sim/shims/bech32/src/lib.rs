//! Stands in for bech32 0.11: BIP-173 text encoding, as far as /repo uses it.

const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hrp(String);
impl Hrp {
    pub fn parse_unchecked(s: &str) -> Hrp {
        Hrp(s.to_string())
    }
    pub fn parse(s: &str) -> Result<Hrp, DecodeError> {
        if s.is_empty() || s.len() > 83 || s.bytes().any(|b| !(33..=126).contains(&b)) {
            return Err(DecodeError("invalid human readable part"));
        }
        Ok(Hrp(s.to_string()))
    }
    pub fn to_lowercase(&self) -> String {
        self.0.to_lowercase()
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl std::fmt::Display for Hrp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct DecodeError(&'static str);
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for DecodeError {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl std::fmt::Display for EncodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("too long")
    }
}
impl std::error::Error for EncodeError {}

pub trait Checksum {
    const RESIDUE: u32;
}
#[derive(Clone, Copy, Debug)]
pub enum Bech32 {}
impl Checksum for Bech32 {
    const RESIDUE: u32 = 1;
}
#[derive(Clone, Copy, Debug)]
pub enum Bech32m {}
impl Checksum for Bech32m {
    const RESIDUE: u32 = 0x2bc8_30a3;
}

fn polymod(hrp: &str, data: &[u8]) -> u32 {
    let g = [0x3b6a_57b2u32, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3];
    let mut c = 1u32;
    let mut feed = |v: u8| {
        let b = c >> 25;
        c = ((c & 0x1ff_ffff) << 5) ^ u32::from(v);
        for (i, x) in g.iter().enumerate() {
            if (b >> i) & 1 == 1 {
                c ^= x;
            }
        }
    };
    let low = hrp.to_lowercase();
    low.bytes().for_each(|b| feed(b >> 5));
    feed(0);
    low.bytes().for_each(|b| feed(b & 31));
    data.iter().for_each(|b| feed(*b));
    c
}

pub fn encode<C: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> {
    let mut v = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = (acc << 8) | u32::from(*b);
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            v.push((acc >> bits) as u8 & 31);
        }
    }
    if bits > 0 {
        v.push((acc << (5 - bits)) as u8 & 31);
    }
    let mut padded = v.clone();
    padded.extend([0; 6]);
    let sum = polymod(&hrp.0, &padded) ^ C::RESIDUE;
    v.extend((0..6).map(|i| (sum >> (5 * (5 - i))) as u8 & 31));
    let mut s = format!("{}1", hrp.to_lowercase());
    s.extend(v.iter().map(|x| CHARS[*x as usize] as char));
    if s.len() > 1023 { Err(EncodeError) } else { Ok(s) }
}

/// Accepts both checksums, as the original does.
pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> {
    if s.bytes().any(|b| b.is_ascii_lowercase()) && s.bytes().any(|b| b.is_ascii_uppercase()) {
        return Err(DecodeError("mixed case"));
    }
    let i = s.rfind('1').ok_or(DecodeError("no separator"))?;
    let hrp = Hrp::parse(&s[..i])?;
    let mut v = Vec::new();
    for b in s[i + 1..].bytes() {
        let b = b.to_ascii_lowercase();
        v.push(CHARS.iter().position(|c| *c == b).ok_or(DecodeError("invalid character"))? as u8);
    }
    if v.len() < 6 {
        return Err(DecodeError("too short"));
    }
    let p = polymod(&hrp.0, &v);
    if p != Bech32::RESIDUE && p != Bech32m::RESIDUE {
        return Err(DecodeError("invalid checksum"));
    }
    v.truncate(v.len() - 6);
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for x in v {
        acc = (acc << 5) | u32::from(x);
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    Ok((hrp, out))
}
