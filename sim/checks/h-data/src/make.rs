//! Random values of the chain's types, drawn from small pools so that they collide.

use simkit::Ctx;
use witnet_data_structures::chain::*;

pub fn hash_of(n: u64) -> Hash {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&n.to_be_bytes());
    Hash::from(b.to_vec())
}

pub fn pkh(n: u8) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[n; 20]).unwrap()
}

pub fn vto(ctx: &Ctx, owners: u64) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(ctx.below(owners) as u8), value: 1 + ctx.skewed(1 << 40), time_lock: if ctx.chance(1, 4) { ctx.skewed(1 << 33) } else { 0 } }
}

pub fn op(tx: u64, i: u32) -> OutputPointer {
    OutputPointer { transaction_id: hash_of(tx), output_index: i }
}
