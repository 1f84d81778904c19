//! C04: a signature vouches for one message by one key.

use secp256k1::{PublicKey, SecretKey};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use witnet_crypto::hash::calculate_sha256;
use witnet_crypto::signature::{Signature, sign, verify};

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let n = 1 + ctx.idx(3);
    let mut keys = Vec::new();
    while keys.len() < n {
        if let Ok(k) = SecretKey::from_slice(&ctx.bytes(32)) {
            keys.push((k, PublicKey::from_secret_key_global(&k)));
        }
    }
    // (sender, digest, compact signature)
    let mut sent: Vec<(usize, Vec<u8>, Vec<u8>)> = Vec::new();
    while ctx.more(16) {
        let who = ctx.idx(n);
        let body = ctx.bytes(ctx.skewed(300) as usize);
        let digest = calculate_sha256(&body);
        {
            use sha2::Digest;
            ensure_eq!(digest.as_ref(), &sha2::Sha256::digest(&body)[..], "wrong-hash", "hash of {} bytes", body.len());
        }
        let sig = sign(keys[who].0, digest.as_ref()).map_err(|e| Fail::new("spurious-error", e.to_string()))?;
        ctx.op("sign");
        let m = (who, digest.as_ref().to_vec(), sig.serialize_compact().to_vec());
        let (mut from, mut d, mut s) = m.clone();
        sent.push(m);
        let kind = ctx.below(8);
        match kind {
            0 | 1 => {}
            2 => {
                d[ctx.idx(32)] ^= 1 << ctx.below(8);
                ctx.fault("msg_corrupted");
            }
            3 => {
                s[ctx.idx(64)] ^= 1 << ctx.below(8);
                ctx.fault("sig_corrupted");
            }
            4 => {
                from = ctx.idx(n);
                ctx.fault("wrong_sender");
            }
            5 => {
                let k = ctx.idx(40);
                d.resize(k, 0);
                ctx.fault("truncated");
            }
            6 => {
                s = ctx.pick(&sent).2.clone();
                ctx.fault("mixed_up");
            }
            _ => {
                // The other half of the signature pair (r, -s) is not the canonical one.
                let mut hi = SecretKey::from_slice(&s[32..]).map_err(|e| Fail::new("harness", e.to_string()))?;
                hi = hi.negate();
                s[32..].copy_from_slice(&hi.secret_bytes());
                ctx.fault("sig_corrupted");
            }
        }
        let genuine = sent.iter().any(|(f, x, y)| keys[*f].1 == keys[from].1 && *x == d && *y == s);
        let verdict = match Signature::from_compact(&s) {
            Ok(sig) => simkit::catch(|| verify(&keys[from].1, &d, &sig)).map_err(|m| Fail::new("panic", m))?.is_ok(),
            Err(_) => false,
        };
        ev!(ctx, "message of {who} as {from}, kind {kind}: {verdict}");
        ctx.state(simkit::rng::mix("s", &[kind, u64::from(verdict), simkit::rng::fnv(&d)]));
        ensure_eq!(
            verdict,
            genuine,
            if genuine { "signature-rejected" } else { "forgery-accepted" },
            "verdict on a message of signer {who} presented as {from} (tampering {kind})"
        );
        if ctx.chance(1, 8) {
            let k = *ctx.pick(&[0usize, 1, 31, 33, 64]);
            ensure!(sign(keys[who].0, &vec![1; k]).is_err(), "bad-digest-signed", "a digest of {k} bytes was signed");
        }
    }
    Ok(())
}
