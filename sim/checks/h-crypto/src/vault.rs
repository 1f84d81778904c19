//! C05: what was locked with a password opens with it, and only intact.

use aes::cipher::{BlockEncrypt, NewBlockCipher};
use hmac::Mac;
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use witnet_crypto::cipher::{decrypt_aes_cbc, encrypt_aes_cbc, generate_random};
use witnet_crypto::mnemonic::Mnemonic;
use witnet_crypto::pbkdf2::pbkdf2_sha256;

fn ref_pbkdf2(pw: &[u8], salt: &[u8], c: u32) -> [u8; 32] {
    let prf = |d: &[&[u8]]| -> [u8; 32] {
        let mut m = hmac::Hmac::<sha2::Sha256>::new_varkey(pw).unwrap();
        for x in d {
            m.input(x);
        }
        m.result().code()[..].try_into().unwrap()
    };
    let mut u = prf(&[salt, &1u32.to_be_bytes()]);
    let mut t = u;
    for _ in 1..c {
        u = prf(&[&u]);
        for i in 0..32 {
            t[i] ^= u[i];
        }
    }
    t
}

fn ref_cbc(key: &[u8], iv: &[u8], plain: &[u8]) -> Vec<u8> {
    let c = aes::Aes256::new_from_slice(key).unwrap();
    let pad = 16 - plain.len() % 16;
    let mut v = plain.to_vec();
    v.extend(vec![pad as u8; pad]);
    let mut prev: [u8; 16] = iv.try_into().unwrap();
    for b in v.chunks_mut(16) {
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        let mut blk = aes::Block::clone_from_slice(b);
        c.encrypt_block(&mut blk);
        b.copy_from_slice(&blk);
        prev.copy_from_slice(&blk);
    }
    v
}

#[derive(Clone)]
struct File {
    salt: Vec<u8>,
    iv: Vec<u8>,
    iters: u32,
    data: Vec<u8>,
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let mut secret = make_secret(ctx)?;
    let mut pw = ctx.bytes(ctx.skewed(80) as usize);
    let seal = |pw: &[u8], secret: &[u8]| -> Result<File, Fail> {
        let e = |x: witnet_crypto::cipher::Error| Fail::new("spurious-error", x.to_string());
        let salt = generate_random(32).map_err(e)?;
        let iv = generate_random(16).map_err(e)?;
        let iters = if ctx.chance(1, 60) { *ctx.pick(&[255u32, 256, 1000, 1024, 4096]) } else { 1 + ctx.skewed(40) as u32 };
        let key = pbkdf2_sha256(pw, &salt, iters);
        ensure_eq!(key.as_ref(), &ref_pbkdf2(pw, &salt, iters)[..], "wrong-key", "key from the password, {iters} iterations");
        let data = encrypt_aes_cbc(&key, secret, &iv).map_err(e)?;
        ensure_eq!(data, ref_cbc(&key, &iv, secret), "wrong-ciphertext", "encryption of {} bytes", secret.len());
        Ok(File { salt, iv, iters, data })
    };
    let mut disk = seal(&pw, &secret)?;
    let mut old: Vec<File> = vec![disk.clone()];
    while ctx.more(16) {
        match ctx.weighted(&[4, 2, 2, 6, 1]) {
            0 => {
                // Restart and unlock.
                ctx.fault("crash");
                let key = pbkdf2_sha256(&pw, &disk.salt, disk.iters);
                let r = decrypt_aes_cbc(&key, &disk.data, &disk.iv).map_err(|e| Fail::new("locked-out", format!("the right password does not open the vault: {e}")))?;
                ensure_eq!(r, secret, "wrong-plaintext", "contents of the vault");
                ev!(ctx, "unlocked {} bytes", r.len());
            }
            1 => {
                let mut bad = pw.clone();
                if bad.is_empty() || ctx.chance(1, 3) {
                    bad.push(1 + ctx.below(255) as u8);
                } else {
                    let i = ctx.idx(bad.len());
                    bad[i] ^= 1 << ctx.below(8);
                }
                ctx.fault("wrong_password");
                let key = pbkdf2_sha256(&bad, &disk.salt, disk.iters);
                let r = simkit::catch(|| decrypt_aes_cbc(&key, &disk.data, &disk.iv)).map_err(|m| Fail::new("panic", m))?;
                ev!(ctx, "wrong password: {}", r.is_ok());
                // An HMAC key is padded with zeros: a trailing zero byte is the same password.
                if ref_pbkdf2(&bad, &disk.salt, disk.iters) != ref_pbkdf2(&pw, &disk.salt, disk.iters) {
                    ensure!(r.ok().as_deref() != Some(&secret[..]), "opened-without-password", "a wrong password opens the vault");
                }
            }
            2 => {
                // New password or new contents, and perhaps a crash before the file is replaced.
                let npw = ctx.bytes(ctx.skewed(80) as usize);
                let nsec = if ctx.chance(1, 2) { make_secret(ctx)? } else { secret.clone() };
                let f = seal(&npw, &nsec)?;
                ensure!(old.iter().all(|o| o.iv != f.iv && o.salt != f.salt), "repeated-secret", "salt or iv used twice");
                if ctx.chance(1, 3) {
                    ctx.fault("crash");
                } else {
                    old.push(f.clone());
                    disk = f;
                    pw = npw;
                    secret = nsec;
                }
            }
            3 => {
                // The file comes back damaged: an error or something else, and never a crash.
                let mut f = disk.clone();
                let what = match ctx.below(5) {
                    0 => {
                        let i = ctx.idx(f.data.len());
                        f.data[i] ^= 1 << ctx.below(8);
                        "vault_corrupted"
                    }
                    1 => {
                        f.data.truncate(ctx.idx(f.data.len()));
                        "vault_truncated"
                    }
                    2 => {
                        f.iv = ctx.pick(&old).iv.clone();
                        "stale_iv"
                    }
                    3 => {
                        f.iv.truncate(ctx.idx(16));
                        "bad_key_length"
                    }
                    _ => {
                        let n = ctx.skewed(40) as usize;
                        f.data.extend(ctx.bytes(n));
                        "vault_corrupted"
                    }
                };
                let key = pbkdf2_sha256(&pw, &f.salt, f.iters);
                let mut key = key.as_ref().to_vec();
                if what == "bad_key_length" && ctx.chance(1, 2) {
                    f.iv = disk.iv.clone();
                    key.truncate(ctx.idx(32));
                }
                ctx.fault(what);
                let r = simkit::catch(|| decrypt_aes_cbc(&key, &f.data, &f.iv)).map_err(|m| Fail::new("panic", format!("{what}: {m}")))?;
                let intact = f.data == disk.data && f.iv == disk.iv && key.len() == 32;
                ev!(ctx, "{what}: {}", r.is_ok());
                ctx.state(simkit::rng::fnv(format!("{what}{}{}", secret.len(), r.is_ok()).as_bytes()));
                if f.data.len() % 16 != 0 || f.iv.len() != 16 || key.len() != 32 || f.data.is_empty() {
                    ensure!(r.is_err(), "damaged-accepted", "{what}: a vault of {} bytes with an iv of {} opens", f.data.len(), f.iv.len());
                } else if intact {
                    ensure_eq!(r.ok(), Some(secret.clone()), "wrong-plaintext", "contents of the intact vault");
                } else if what != "stale_iv" {
                    ensure!(r.ok().as_deref() != Some(&secret[..]), "damaged-accepted", "{what}: the damage goes unnoticed");
                }
                let e = simkit::catch(|| encrypt_aes_cbc(&key, &secret, &f.iv)).map_err(|m| Fail::new("panic", m))?;
                ensure_eq!(e.is_ok(), key.len() == 32 && f.iv.len() == 16, "bad-key-accepted", "encryption with a key of {} and an iv of {} bytes", key.len(), f.iv.len());
            }
            _ => {
                // The phrase on paper gives the same seed again.
                let words = Mnemonic::build().generate().words().to_string();
                let pass = hex::encode(ctx.bytes(ctx.idx(8)));
                let a = Mnemonic::from_phrase(words.as_str().into()).map_err(|e| Fail::new("spurious-error", e.to_string()))?;
                let b = Mnemonic::from_phrase_ref(&words).map_err(|e| Fail::new("spurious-error", e.to_string()))?;
                ensure_eq!(a.words(), words, "wrong-seed", "words of a restored mnemonic");
                let s = a.seed(&pass.as_str().into());
                ensure_eq!(s.as_bytes(), b.seed_ref(&pass).as_bytes(), "wrong-seed", "seed of a restored mnemonic");
                let t = a.seed_ref(&format!("{pass}x"));
                ensure!(s.as_bytes() != t.as_bytes(), "wrong-seed", "the passphrase makes no difference");
                let want = bip39::Seed::new(&bip39::Mnemonic::from_phrase(&words, bip39::Language::English).unwrap(), &pass);
                ensure_eq!(s.as_bytes(), want.as_bytes(), "wrong-seed", "seed by the reference");
            }
        }
    }
    Ok(())
}

fn make_secret(ctx: &Ctx) -> Result<Vec<u8>, Fail> {
    let n = match ctx.below(24) {
        0 => *ctx.pick(&[255usize, 256, 257, 1000, 4096, 5000, 65_535, 66_000]),
        1 | 2 => ctx.idx(300),
        _ => *ctx.pick(&[0usize, 1, 15, 16, 17, 32, 64, 100]),
    };
    // Content from one draw; never the same twice by accident.
    Ok(ctx.bytes(n))
}
