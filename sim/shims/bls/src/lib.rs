//! Stands in for BLS multi-signatures over BN256 with hashes: same shapes, verification and aggregation, no security
//! (the simulated parties do not forge).

use sha2::{Digest, Sha256};

pub trait MultiSignature<P, S, G> {
    type Error;
    fn derive_public_key(&self, secret_key: S) -> Result<Vec<u8>, Self::Error>;
    fn sign(&self, secret_key: S, message: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&self, signature: G, message: &[u8], public_key: P) -> Result<(), Self::Error>;
}

pub mod bn256 {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error {
        InvalidPoint,
        InvalidLength,
        Verify,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}

    pub struct Bn256;
    pub struct PrivateKey(pub Vec<u8>);
    pub struct PublicKey(pub(crate) Vec<u8>);
    impl PrivateKey {
        pub fn new<T: AsRef<[u8]>>(b: T) -> Result<PrivateKey, Error> {
            if b.as_ref().len() == 32 { Ok(PrivateKey(b.as_ref().to_vec())) } else { Err(Error::InvalidLength) }
        }
    }
    impl PublicKey {
        pub fn from_compressed<T: AsRef<[u8]>>(b: T) -> Result<PublicKey, Error> {
            let b = b.as_ref();
            if b.len() != 65 {
                return Err(Error::InvalidLength);
            }
            // Half of the encodings are not on the curve.
            if !(b[0] == 10 || b[0] == 11) || b[64] != super::check(&b[..64]) {
                return Err(Error::InvalidPoint);
            }
            Ok(PublicKey(b.to_vec()))
        }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> {
            let mut v = self.0[1..].to_vec();
            v.extend(self.0.iter());
            v.truncate(128);
            v.resize(128, 7);
            Ok(v)
        }
        pub fn to_compressed(&self) -> Result<Vec<u8>, Error> {
            Ok(self.0.clone())
        }
    }
}

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha256::new();
    for p in parts {
        d.input((p.len() as u64).to_le_bytes());
        d.input(p);
    }
    d.result().into()
}
fn check(b: &[u8]) -> u8 {
    h(&[b"check", b])[0] & 1
}

impl MultiSignature<&[u8], &[u8], &[u8]> for bn256::Bn256 {
    type Error = bn256::Error;
    fn derive_public_key(&self, secret_key: &[u8]) -> Result<Vec<u8>, bn256::Error> {
        bn256::PrivateKey::new(secret_key)?;
        let mut v = vec![10];
        v.extend(h(&[b"pk0", secret_key]));
        v.extend(&h(&[b"pk1", secret_key])[..31]);
        let c = check(&v);
        v.push(c);
        Ok(v)
    }
    fn sign(&self, secret_key: &[u8], message: &[u8]) -> Result<Vec<u8>, bn256::Error> {
        let pk = self.derive_public_key(secret_key)?;
        let mut v = vec![2];
        v.extend(h(&[b"sig", &pk, message]));
        Ok(v)
    }
    fn verify(&self, signature: &[u8], message: &[u8], public_key: &[u8]) -> Result<(), bn256::Error> {
        bn256::PublicKey::from_compressed(public_key)?;
        let mut v = vec![2];
        v.extend(h(&[b"sig", public_key, message]));
        if v == signature { Ok(()) } else { Err(bn256::Error::Verify) }
    }
}
