//! C03: a key survives export, crash and import, or the import says no.

use bech32::{FromBase32, ToBase32};
use hmac::Mac;
use secp256k1::{PublicKey, Scalar, SecretKey};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen};

/// The reference: BIP-32 by the book.
#[derive(Clone, PartialEq, Debug)]
pub struct RefKey {
    pub sk: [u8; 32],
    pub cc: [u8; 32],
}

fn hmac512(key: &[u8], parts: &[&[u8]]) -> ([u8; 32], [u8; 32]) {
    let mut m = hmac::Hmac::<sha2::Sha512>::new_varkey(key).unwrap();
    for p in parts {
        m.input(p);
    }
    let r = m.result().code();
    (r[..32].try_into().unwrap(), r[32..].try_into().unwrap())
}

impl RefKey {
    pub fn master(key: &[u8], seed: &[u8]) -> RefKey {
        let (sk, cc) = hmac512(key, &[seed]);
        RefKey { sk, cc }
    }
    pub fn child(&self, i: u32) -> RefKey {
        let sk = SecretKey::from_slice(&self.sk).unwrap();
        let (il, cc) = if i >= 1 << 31 {
            hmac512(&self.cc, &[&[0], &self.sk, &i.to_be_bytes()])
        } else {
            hmac512(&self.cc, &[&PublicKey::from_secret_key_global(&sk).serialize(), &i.to_be_bytes()])
        };
        let k = sk.add_tweak(&Scalar::from_be_bytes(il).unwrap()).unwrap();
        RefKey { sk: k.secret_bytes(), cc }
    }
}

fn same(k: &ExtendedSK, r: &RefKey, what: &str) -> Res {
    ensure_eq!(k.secret().as_ref(), &r.sk[..], "wrong-key", "secret key {what}");
    ensure_eq!(k.chain_code().as_ref(), &r.cc[..], "wrong-key", "chain code {what}");
    let mut both = r.sk.to_vec();
    both.extend(r.cc);
    ensure_eq!(k.concat().as_ref(), &both[..], "wrong-key", "secret key and chain code together {what}");
    let pk = ExtendedPK::from_secret_key(k);
    ensure_eq!(
        pk.key,
        PublicKey::from_secret_key_global(&SecretKey::from_slice(&r.sk).unwrap()),
        "wrong-key",
        "public key {what}"
    );
    ensure_eq!(pk.chain_code.as_ref(), &r.cc[..], "wrong-key", "chain code of the public key {what}");
    Ok(())
}

fn payload(path: &[u32], r: &RefKey) -> Vec<u8> {
    let mut v = vec![path.len() as u8];
    for p in path {
        v.extend(p.to_be_bytes());
    }
    v.extend(r.cc);
    v.push(0);
    v.extend(r.sk);
    v
}

fn key_path(p: &[u32]) -> KeyPath {
    let mut k = KeyPath::default();
    for i in p {
        k = if *i >= 1 << 31 { k.hardened(*i - (1 << 31)) } else { k.index(*i) };
    }
    k
}

fn path_text(p: &[u32]) -> String {
    let mut s = "m".to_string();
    for i in p {
        s += &if *i >= 1 << 31 { format!("/{}'", i - (1 << 31)) } else { format!("/{i}") };
    }
    s
}

fn index(ctx: &Ctx) -> u32 {
    let v = match ctx.below(4) {
        0 => ctx.below(4) as u32,
        1 => (1 << 31) - 1 - ctx.below(2) as u32,
        2 => ctx.below(1 << 31) as u32,
        _ => ctx.below(100) as u32,
    };
    if ctx.chance(1, 2) {
        ctx.probe("hardened");
        v | 1 << 31
    } else {
        v
    }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    // Master key.
    let len = match ctx.below(6) {
        0 => *ctx.pick(&[0usize, 1, 15, 65, 100]),
        1 => *ctx.pick(&[16usize, 64]),
        _ => 16 + ctx.idx(49),
    };
    let seed = ctx.bytes(len);
    let hk = if ctx.chance(1, 2) { None } else { Some(ctx.bytes(1 + ctx.idx(200))) };
    let g = match &hk {
        Some(k) => MasterKeyGen::new(seed.clone()).with_key(k).generate(),
        None => MasterKeyGen::new(seed.clone()).generate(),
    };
    if !(16..=64).contains(&len) {
        ctx.probe("bad_seed_length");
        ensure!(g.is_err(), "bad-seed-accepted", "a master key from a seed of {len} bytes");
        return Ok(());
    }
    let mut key = g.map_err(|e| Fail::new("spurious-error", format!("no master key from {len} bytes: {e}")))?;
    let mut r = RefKey::master(hk.as_deref().unwrap_or(b"Bitcoin seed"), &seed);
    same(&key, &r, "of the master")?;
    let master = key.clone();
    let mut path: Vec<u32> = Vec::new();
    // What is on the disk, and every export there ever was.
    let mut disk: Option<String> = None;
    let mut exports: Vec<(String, Vec<u32>, RefKey)> = Vec::new();
    if ctx.chance(1, 6) {
        // A long path: exports have to cope up to 255 levels.
        let d = *ctx.pick(&[30usize, 47, 48, 63, 64, 100, 254, 255]);
        ctx.probe("deep_path");
        for _ in 0..d {
            let i = index(ctx);
            path.push(i);
            r = r.child(i);
        }
        key = master.derive(&key_path(&path)).map_err(|e| Fail::new("spurious-error", format!("derive: {e}")))?;
        same(&key, &r, &format!("at depth {d}"))?;
    }
    while ctx.more(24) {
        match ctx.weighted(&[5, 4, 3, 3]) {
            0 => {
                if path.len() >= 255 {
                    continue;
                }
                let k = 1 + ctx.idx(3);
                let mut part = Vec::new();
                for _ in 0..k.min(255 - path.len()) {
                    part.push(index(ctx));
                }
                for i in &part {
                    r = r.child(*i);
                }
                path.extend(&part);
                key = key.derive(&key_path(&part)).map_err(|e| Fail::new("spurious-error", format!("derive: {e}")))?;
                ctx.op("derive");
                same(&key, &r, &format!("at {}", path_text(&path)))?;
                if path.len() < 12 {
                    let whole = master.derive(&key_path(&path)).map_err(|e| Fail::new("spurious-error", format!("derive: {e}")))?;
                    same(&whole, &r, &format!("at {} from the master", path_text(&path)))?;
                }
            }
            1 => {
                let kp = key_path(&path);
                ensure_eq!(kp.depth(), path.len(), "wrong-path", "depth of the path");
                ensure_eq!(kp.is_master(), path.is_empty(), "wrong-path", "whether {} is the master", path_text(&path));
                ensure_eq!(kp.to_string(), path_text(&path), "wrong-path", "text of the path");
                if ctx.chance(1, 4) {
                    // Half of the numbers are for hardened steps, and no others get there.
                    let i = (1 << 31) + *ctx.pick(&[0, 1, 44, (1 << 31) - 1]);
                    let k = kp.clone();
                    let over = simkit::catch(|| k.index(i).to_string());
                    ensure!(over.is_err(), "wrong-path", "an ordinary step {i} gives the path {over:?}");
                    let k = kp.clone();
                    let over = simkit::catch(|| k.hardened(i).to_string());
                    ensure!(over.is_err(), "wrong-path", "a hardened step {i} gives the path {over:?}");
                    ctx.probe("step_too_large");
                }
                let s = simkit::catch(|| key.to_slip32(&kp))
                    .map_err(|m| Fail::new("panic", format!("export at depth {}: {m}", path.len())))?
                    .map_err(|e| Fail::new("export-failed", format!("export at depth {}: {e}", path.len())))?;
                ctx.op("export");
                ctx.state(simkit::rng::fnv(path_text(&path).as_bytes()));
                let (hrp, data) = bech32::decode(&s).map_err(|e| Fail::new("bad-export", e.to_string()))?;
                ensure_eq!(hrp.as_str(), "xprv", "bad-export", "prefix");
                let b = Vec::<u8>::from_base32(&data).map_err(|e| Fail::new("bad-export", e.to_string()))?;
                ensure_eq!(b, payload(&path, &r), "bad-export", "payload at {}", path_text(&path));
                exports.push((s.clone(), path.clone(), r.clone()));
                disk = Some(s);
            }
            2 => {
                // Crash: memory is gone, the disk decides.
                let Some(s) = disk.clone() else { continue };
                ctx.fault("crash");
                let s = damage(ctx, &s, &exports);
                let res = simkit::catch(|| ExtendedSK::from_slip32(&s)).map_err(|m| Fail::new("panic", format!("import of {s:?}: {m}")))?;
                ev!(ctx, "import {}: {}", s.len(), res.is_ok());
                match res {
                    Ok((k, p)) => {
                        let p: Vec<u32> = p.iter().map(|i| *i.as_ref()).collect();
                        let hit = exports.iter().rev().find(|(_, ep, er)| *ep == p && k.secret().as_ref() == er.sk);
                        let Some((_, ep, er)) = hit else {
                            return Err(Fail::new("wrong-key", format!("the damaged export {s:?} was imported as a key at {}", path_text(&p))));
                        };
                        same(&k, er, "after the restart")?;
                        path = ep.clone();
                        r = er.clone();
                        key = k;
                    }
                    Err(_) => {
                        ensure!(
                            !exports.iter().any(|(e, ..)| *e == s),
                            "import-failed",
                            "the intact export {s:?} cannot be imported"
                        );
                    }
                }
            }
            _ => crafted(ctx, &path, &r)?,
        }
    }
    // 256 levels do not fit the format.
    if ctx.chance(1, 20) {
        let p = vec![1u32; 256];
        let s = simkit::catch(|| key.to_slip32(&key_path(&p))).map_err(|m| Fail::new("panic", format!("export at depth 256: {m}")))?;
        ensure!(s.is_err(), "bad-export", "a path of 256 levels was exported");
    }
    Ok(())
}

fn damage(ctx: &Ctx, s: &str, exports: &[(String, Vec<u32>, RefKey)]) -> String {
    const CHARS: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l1bio";
    let mut b = s.as_bytes().to_vec();
    match ctx.below(6) {
        0 | 1 => {}
        2 => {
            for _ in 0..1 + ctx.below(4) {
                let i = ctx.idx(b.len());
                b[i] = *ctx.pick(CHARS);
            }
            ctx.fault("disk_corruption");
        }
        3 => {
            let n = ctx.idx(b.len() + 1);
            b.truncate(n);
            ctx.fault("torn_export");
        }
        4 => {
            // The head of one export and the tail of another.
            let o = ctx.pick(exports).0.as_bytes();
            let n = ctx.idx(b.len().min(o.len()) + 1);
            let mut m = b[..n].to_vec();
            m.extend(&o[n..]);
            b = m;
            ctx.fault("torn_export");
        }
        _ => {
            b = ctx.pick(exports).0.as_bytes().to_vec();
            ctx.fault("stale_export");
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// A well-formed bech32 string with a payload that no export gives.
fn crafted(ctx: &Ctx, path: &[u32], r: &RefKey) -> Res {
    let mut v = payload(path, r);
    let n = v.len();
    let mut hrp = "xprv";
    let kind = ctx.below(8);
    match kind {
        0 => v[n - 33] = 1 + ctx.below(255) as u8,
        1 => v[0] = v[0].wrapping_add(1 + ctx.below(254) as u8),
        2 => v[n - 32..].fill(0),
        3 => v[n - 32..].fill(0xff),
        4 => {
            v.truncate(ctx.idx(n));
        }
        5 => v.extend(ctx.bytes(1 + ctx.idx(40))),
        6 => hrp = *ctx.pick(&["xpub", "wit", "xpr", "xprvv"]),
        _ => v.clear(),
    }
    let s = bech32::encode(hrp, v.to_base32()).unwrap();
    ctx.fault("crafted_import");
    ev!(ctx, "crafted import of kind {kind}");
    let res = simkit::catch(|| ExtendedSK::from_slip32(&s)).map_err(|m| Fail::new("panic", format!("import of the crafted {s:?}: {m}")))?;
    ensure!(res.is_err(), "bad-import-accepted", "the crafted export {s:?} (kind {kind}, payload {}) was imported", hex::encode(&v));
    Ok(())
}
