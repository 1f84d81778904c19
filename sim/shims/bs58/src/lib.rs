//! Base58 with the Bitcoin alphabet.
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("invalid base58")
    }
}
impl std::error::Error for Error {}

pub struct Encode(Vec<u8>);
pub struct Decode(Vec<u8>);

pub fn encode<I: AsRef<[u8]>>(i: I) -> Encode {
    Encode(i.as_ref().to_vec())
}
pub fn decode<I: AsRef<[u8]>>(i: I) -> Decode {
    Decode(i.as_ref().to_vec())
}

impl Encode {
    pub fn into_string(self) -> String {
        let zeros = self.0.iter().take_while(|b| **b == 0).count();
        let mut d: Vec<u32> = vec![];
        for b in self.0 {
            let mut c = u32::from(b);
            for x in d.iter_mut() {
                c += *x << 8;
                *x = c % 58;
                c /= 58;
            }
            while c > 0 {
                d.push(c % 58);
                c /= 58;
            }
        }
        std::iter::repeat('1').take(zeros).chain(d.iter().rev().map(|x| A[*x as usize] as char)).collect()
    }
}

impl Decode {
    pub fn into_vec(self) -> Result<Vec<u8>, Error> {
        let zeros = self.0.iter().take_while(|b| **b == b'1').count();
        let mut d: Vec<u32> = vec![];
        for b in self.0 {
            let mut c = A.iter().position(|x| *x == b).ok_or(Error)? as u32;
            for x in d.iter_mut() {
                c += *x * 58;
                *x = c & 0xff;
                c >>= 8;
            }
            while c > 0 {
                d.push(c & 0xff);
                c >>= 8;
            }
        }
        Ok(std::iter::repeat(0).take(zeros).chain(d.iter().rev().map(|x| *x as u8)).collect())
    }
}
