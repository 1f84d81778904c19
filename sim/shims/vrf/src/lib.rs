//! Stands in for the `vrf` crate: ECVRF-SECP256K1-SHA256-TAI over the secp256k1 crate (nonces are not those of RFC 6979).

pub trait VRF<P, S> {
    type Error;
    fn derive_public_key(&mut self, secret_key: S) -> Result<Vec<u8>, Self::Error>;
    fn prove(&mut self, x: S, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: P, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}

pub mod openssl {
    use super::VRF;
    use secp256k1::{PublicKey, SECP256K1, Scalar, SecretKey};
    use sha2::{Digest, Sha256};

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Error {
        HashToPoint,
        InvalidPiLength,
        InvalidKey,
        InvalidProof,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub enum CipherSuite {
        SECP256K1_SHA256_TAI,
    }

    #[derive(Debug)]
    pub struct ECVRF(());

    const SUITE: u8 = 0xFE;

    fn sha(parts: &[&[u8]]) -> [u8; 32] {
        let mut d = Sha256::new();
        parts.iter().for_each(|p| d.input(p));
        d.result().into()
    }
    fn to_curve(y: &PublicKey, alpha: &[u8]) -> Result<PublicKey, Error> {
        for ctr in 0..=255u8 {
            let h = sha(&[&[SUITE, 1], &y.serialize(), alpha, &[ctr]]);
            let mut p = [2u8; 33];
            p[1..].copy_from_slice(&h);
            if let Ok(p) = PublicKey::from_slice(&p) {
                return Ok(p);
            }
        }
        Err(Error::HashToPoint)
    }
    fn challenge(points: [&PublicKey; 4]) -> [u8; 32] {
        let mut v = vec![SUITE, 2];
        points.iter().for_each(|p| v.extend(p.serialize()));
        let mut c = [0u8; 32];
        c[16..].copy_from_slice(&sha(&[&v])[..16]);
        c
    }
    fn mul(p: &PublicKey, s: &[u8; 32]) -> Result<PublicKey, Error> {
        let s = Scalar::from_be_bytes(*s).map_err(|_| Error::InvalidProof)?;
        p.mul_tweak(SECP256K1, &s).map_err(|_| Error::InvalidProof)
    }

    impl ECVRF {
        pub fn from_suite(_: CipherSuite) -> Result<ECVRF, Error> {
            Ok(ECVRF(()))
        }
        pub fn proof_to_hash(&mut self, pi: &[u8]) -> Result<Vec<u8>, Error> {
            let (gamma, _, _) = parse(pi)?;
            Ok(sha(&[&[SUITE, 3], &gamma.serialize()]).to_vec())
        }
    }
    fn parse(pi: &[u8]) -> Result<(PublicKey, [u8; 32], [u8; 32]), Error> {
        if pi.len() != 81 {
            return Err(Error::InvalidPiLength);
        }
        let gamma = PublicKey::from_slice(&pi[..33]).map_err(|_| Error::InvalidProof)?;
        let mut c = [0; 32];
        c[16..].copy_from_slice(&pi[33..49]);
        Ok((gamma, c, pi[49..].try_into().unwrap()))
    }

    impl VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            let sk = SecretKey::from_slice(sk).map_err(|_| Error::InvalidKey)?;
            Ok(PublicKey::from_secret_key(SECP256K1, &sk).serialize().to_vec())
        }
        fn prove(&mut self, x: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let sk = SecretKey::from_slice(x).map_err(|_| Error::InvalidKey)?;
            let y = PublicKey::from_secret_key(SECP256K1, &sk);
            let h = to_curve(&y, alpha)?;
            let gamma = mul(&h, &sk.secret_bytes())?;
            let k = SecretKey::from_slice(&sha(&[b"nonce", x, &h.serialize()])).map_err(|_| Error::InvalidKey)?;
            let (u, v) = (PublicKey::from_secret_key(SECP256K1, &k), mul(&h, &k.secret_bytes())?);
            let c = challenge([&h, &gamma, &u, &v]);
            let cs = Scalar::from_be_bytes(c).map_err(|_| Error::InvalidProof)?;
            let s = sk
                .mul_tweak(&cs)
                .and_then(|cx| cx.add_tweak(&Scalar::from(k)))
                .map_err(|_| Error::InvalidProof)?;
            let mut pi = gamma.serialize().to_vec();
            pi.extend(&c[16..]);
            pi.extend(s.secret_bytes());
            Ok(pi)
        }
        fn verify(&mut self, y: &[u8], pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let yp = PublicKey::from_slice(y).map_err(|_| Error::InvalidKey)?;
            let (gamma, c, s) = parse(pi)?;
            let h = to_curve(&yp, alpha)?;
            // U = s*B - c*Y, V = s*H - c*Gamma
            let sk = SecretKey::from_slice(&s).map_err(|_| Error::InvalidProof)?;
            let sb = PublicKey::from_secret_key(SECP256K1, &sk);
            let u = sb.combine(&mul(&yp, &c)?.negate(SECP256K1)).map_err(|_| Error::InvalidProof)?;
            let v = mul(&h, &s)?.combine(&mul(&gamma, &c)?.negate(SECP256K1)).map_err(|_| Error::InvalidProof)?;
            if challenge([&h, &gamma, &u, &v]) != c {
                return Err(Error::InvalidProof);
            }
            self.proof_to_hash(pi)
        }
    }
}
