//! Stands in for ethereum-types: a 256-bit unsigned integer, as far as /repo uses it.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct U256([u8; 32]);
impl From<u64> for U256 {
    fn from(v: u64) -> U256 {
        let mut b = [0; 32];
        b[24..].copy_from_slice(&v.to_be_bytes());
        U256(b)
    }
}
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> U256 {
        assert!(b.len() <= 32);
        let mut x = [0; 32];
        x[32 - b.len()..].copy_from_slice(b);
        U256(x)
    }
    pub fn to_big_endian(&self) -> [u8; 32] {
        self.0
    }
    pub fn low_u64(&self) -> u64 {
        u64::from_be_bytes(self.0[24..].try_into().unwrap())
    }
    /// Divisors of at most 64 bits.
    pub fn div_mod(self, n: U256) -> (U256, U256) {
        assert!(n.0[..24].iter().all(|b| *b == 0), "not simulated");
        let n = u128::from(n.low_u64());
        assert!(n != 0, "division by zero");
        let mut q = [0u8; 32];
        let mut r = 0u128;
        for i in 0..32 {
            r = (r << 8) | u128::from(self.0[i]);
            q[i] = (r / n) as u8;
            r %= n;
        }
        (U256(q), U256::from(r as u64))
    }
}
