//! C02: no secret is made without entropy.

use simkit::simos::{self, EntropyFault};
use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use std::collections::BTreeSet;
use witnet_crypto::cipher;
use witnet_crypto::mnemonic::{Length, Mnemonic, MnemonicGenerator};

const EIO: i32 = 5;
const EINTR: i32 = 4;

/// A plan for the next calls; true when the request cannot succeed.
fn plan(ctx: &Ctx) -> (Vec<EntropyFault>, EntropyFault, bool) {
    let mut v = Vec::new();
    for _ in 0..ctx.below(5) {
        v.push(match ctx.below(4) {
            0 => EntropyFault::None,
            1 | 2 => EntropyFault::Short(1 + ctx.skewed(20) as usize),
            _ => EntropyFault::Errno(EINTR),
        });
    }
    if ctx.chance(1, 3) {
        (v, EntropyFault::Errno(EIO), true)
    } else {
        (v, EntropyFault::None, false)
    }
}

fn mnemonic(len: usize) -> MnemonicGenerator {
    MnemonicGenerator::new().with_len(match len {
        0 => Length::Words12,
        1 => Length::Words15,
        2 => Length::Words18,
        3 => Length::Words21,
        _ => Length::Words24,
    })
}

fn count(ctx: &Ctx, eintr: bool) -> (u64, u64, u64) {
    let c = simos::entropy_counts();
    for _ in 0..c.2 {
        ctx.fault("short_read");
    }
    if eintr {
        ctx.fault("eintr");
    }
    c
}

pub fn run(ctx: &Ctx) -> Res {
    simos::reset(ctx.below(1 << 32));
    if ctx.chance(1, 2) { bytes(ctx) } else { phrases(ctx) }
}

fn bytes(ctx: &Ctx) -> Res {
    let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
    while ctx.more(12) {
        let size = match ctx.below(5) {
            0 => *ctx.pick(&[8usize, 12, 16, 32]),
            1 if ctx.chance(1, 12) => *ctx.pick(&[4096usize, 65536, 70_000]),
            1 => ctx.skewed(2000) as usize,
            _ => 16 + ctx.idx(48),
        };
        let (p, last, _) = plan(ctx);
        let eintr = p.iter().any(|f| *f == EntropyFault::Errno(EINTR));
        simos::entropy_plan(p.clone(), last);
        simos::entropy_record();
        let r = simkit::catch(|| cipher::generate_random(size));
        let (calls, failed, short) = count(ctx, eintr);
        let got = simos::entropy_taken();
        simos::entropy_plan(vec![], EntropyFault::None);
        let broke = failed > p.iter().filter(|f| **f == EntropyFault::Errno(EINTR)).count() as u64
            || (last != EntropyFault::None && got.len() < size);
        ev!(ctx, "{size} bytes, plan {p:?} then {last:?}: {calls} calls, {failed} failed, {short} short, {:?}", r.as_ref().map(|r| r.is_ok()));
        ctx.state(simkit::rng::fnv(format!("{size}{p:?}{last:?}").as_bytes()));
        ctx.op("generate_random");
        match r {
            Err(m) => return Err(Fail::new("panic", format!("{size} random bytes with the entropy source failing: panic {m}"))),
            Ok(Err(_)) => {
                ensure!(broke, "spurious-error", "no random bytes although the entropy source delivered");
                ctx.fault("entropy_failure");
                ctx.probe_if(!got.is_empty(), "failure_in_the_middle");
            }
            Ok(Ok(v)) => {
                ensure_eq!(v.len(), size, "wrong-length", "number of random bytes");
                ensure!(
                    !broke || size == 0 || got.len() >= size,
                    "secret-without-entropy",
                    "{size} \"random\" bytes although the entropy source failed after {} bytes",
                    got.len()
                );
                if size >= 16 {
                    // 16 constant bytes in a row do not happen with a working source.
                    for w in v.windows(16) {
                        ensure!(w.iter().any(|b| *b != w[0]), "secret-without-entropy", "16 equal bytes in a row among {size} random bytes");
                    }
                    ensure!(seen.insert(v), "repeated-secret", "the same {size} random bytes twice");
                }
            }
        }
    }
    Ok(())
}

fn entropy_of(m: &Mnemonic) -> Result<Vec<u8>, Fail> {
    bip39::Mnemonic::from_phrase(m.words(), bip39::Language::English)
        .map(|m| m.entropy().to_vec())
        .map_err(|e| Fail::new("bad-mnemonic", format!("{:?} is not a mnemonic: {e}", m.words())))
}

fn phrases(ctx: &Ctx) -> Res {
    // The first mnemonic of a thread is what draws the seed from the system.
    if ctx.chance(1, 3) {
        simos::entropy_plan(vec![], EntropyFault::Errno(EIO));
        let r = simkit::catch(|| mnemonic(ctx.idx(5)).generate());
        simos::entropy_plan(vec![], EntropyFault::None);
        ctx.fault("entropy_failure");
        ctx.probe("mnemonic_without_entropy");
        ev!(ctx, "mnemonic without entropy: {}", if r.is_ok() { "made" } else { "refused" });
        if let Ok(m) = r {
            return Err(Fail::new("secret-without-entropy", format!("a mnemonic was made although the entropy source fails: {:?}", m.words())));
        }
        return Ok(());
    }
    let (p, _, _) = plan(ctx);
    let eintr = p.iter().any(|f| *f == EntropyFault::Errno(EINTR));
    simos::entropy_plan(p, EntropyFault::None);
    simos::entropy_record();
    let len = ctx.idx(5);
    let want = [16, 20, 24, 28, 32][len];
    let words = [12, 15, 18, 21, 24][len];
    let mut all: Vec<Vec<u8>> = Vec::new();
    for _ in 0..6 {
        let m = mnemonic(len).generate();
        let e = entropy_of(&m)?;
        ctx.op("mnemonic");
        ensure_eq!(e.len(), want, "wrong-length", "entropy of a mnemonic of {words} words");
        ensure_eq!(m.words().split(' ').count(), words, "wrong-length", "words of the mnemonic");
        ensure!(!all.contains(&e), "repeated-secret", "the same mnemonic twice");
        all.push(e);
    }
    count(ctx, eintr);
    let taken = simos::entropy_taken().len();
    ensure!(taken >= want, "secret-without-entropy", "six mnemonics of {want} bytes from {taken} bytes of entropy");
    for i in 0..want {
        ensure!(
            all.iter().any(|e| e[i] != all[0][i]),
            "secret-without-entropy",
            "byte {i} of the entropy is the same ({}) in six mnemonics",
            all[0][i]
        );
    }
    ev!(ctx, "six mnemonics of {words} words from {taken} bytes");
    ctx.state(simkit::rng::fnv(&all[0]));
    Ok(())
}
