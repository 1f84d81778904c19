//! C01: one set of leaves has one root, and a proof convinces exactly of what is in the tree.

use simkit::{Ctx, Res, ensure, ensure_eq, ev};
use witnet_crypto::hash::{EMPTY_SHA256, Sha256, calculate_sha256};
use witnet_crypto::merkle::{FullMerkleTree, InclusionProof, ProgressiveMerkleTree, merkle_tree_root, sha256_concat};

fn cat(a: &Sha256, b: &Sha256) -> Sha256 {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.input(a.0);
    h.input(b.0);
    let mut o = [0; 32];
    o.copy_from_slice(&h.result());
    Sha256(o)
}

/// Layer by layer; an odd last node goes up as it is.
fn reference(leaves: &[Sha256]) -> Vec<Vec<Sha256>> {
    let mut out = vec![leaves.to_vec()];
    while out.last().unwrap().len() > 1 {
        let l = out.last().unwrap();
        let next = l.chunks(2).map(|c| if c.len() == 2 { cat(&c[0], &c[1]) } else { c[0] }).collect();
        out.push(next);
    }
    out
}
fn ref_root(leaves: &[Sha256]) -> Sha256 {
    if leaves.is_empty() {
        return EMPTY_SHA256;
    }
    reference(leaves).last().unwrap()[0]
}
fn ref_verify(index: usize, lemma: &[Sha256], e: Sha256, root: Sha256) -> bool {
    ref_climb(index, lemma, e) == root
}
fn ref_climb(index: usize, lemma: &[Sha256], e: Sha256) -> Sha256 {
    let mut x = e;
    for (i, h) in lemma.iter().enumerate() {
        let bit = if i < usize::BITS as usize { index >> i & 1 } else { 0 };
        x = if bit == 1 { cat(h, &x) } else { cat(&x, h) };
    }
    x
}

struct Tree {
    leaves: Vec<Sha256>,
    prog: ProgressiveMerkleTree<Sha256>,
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    // Several streams of leaves come in interleaved.
    let n = 1 + ctx.idx(3);
    let mut trees: Vec<Tree> = (0..n).map(|_| Tree { leaves: vec![], prog: ProgressiveMerkleTree::sha256() }).collect();
    for t in &trees {
        ensure_eq!(t.prog.root(), EMPTY_SHA256, "wrong-root", "root of no leaves");
    }
    let dups = ctx.chance(1, 3);
    let max = [6usize, 20, 70, 140, 300, 1100][ctx.weighted(&[60, 60, 60, 60, 10, 1])];
    while ctx.more(max) {
        let i = ctx.idx(n);
        let mut l = [0u8; 32];
        if dups && ctx.chance(1, 2) {
            l[0] = ctx.below(3) as u8;
            ctx.probe_if(trees[i].leaves.contains(&Sha256(l)), "duplicate_leaves");
        } else {
            l.copy_from_slice(&ctx.bytes(32));
        }
        let l = if ctx.chance(1, 4) { calculate_sha256(&l) } else { Sha256(l) };
        let t = &mut trees[i];
        t.prog.push(l);
        t.leaves.push(l);
        ctx.op("push");
        // (Long streams: now and then, and at the end.)
        if t.leaves.len() < 150 || t.leaves.len() % 64 < 2 {
            ensure_eq!(t.prog.root(), ref_root(&t.leaves), "wrong-root", "root of {} leaves, one by one", t.leaves.len());
        }
    }
    ev!(ctx, "trees of {:?} leaves", trees.iter().map(|t| t.leaves.len()).collect::<Vec<_>>());
    for t in &trees {
        let r = ref_root(&t.leaves);
        ensure_eq!(merkle_tree_root(&t.leaves), r, "wrong-root", "root of {} leaves, all at once", t.leaves.len());
        let f = FullMerkleTree::sha256(t.leaves.clone());
        ensure_eq!(f.root(), r, "wrong-root", "root of the full tree of {} leaves", t.leaves.len());
        ensure_eq!(t.prog.root(), r, "wrong-root", "root of {} leaves asked again", t.leaves.len());
        for k in 0..t.leaves.len() {
            ctx.probe_if(k + 1 == t.leaves.len() && k > 0 && k % 2 == 0, "promoted_leaf");
            let Some(p) = f.inclusion_proof(k) else {
                return Err(simkit::Fail::new("no-proof", format!("no proof for leaf {k} of {}", t.leaves.len())));
            };
            ensure!(p.verify(t.leaves[k], r), "proof-rejected", "the proof of leaf {k} of {} does not verify", t.leaves.len());
            ensure!(
                ref_verify(p.proof_index(), p.lemma(), t.leaves[k], r),
                "proof-rejected",
                "the proof of leaf {k} of {} does not lead to the root",
                t.leaves.len()
            );
        }
        for k in [t.leaves.len(), t.leaves.len() + 1, usize::MAX] {
            ensure!(f.inclusion_proof(k).is_none(), "proof-of-nothing", "a proof for leaf {k} of {}", t.leaves.len());
        }
    }
    // Proofs travel.
    ctx.phase();
    while ctx.more(30) {
        let ti = ctx.idx(n);
        if trees[ti].leaves.is_empty() {
            continue;
        }
        let t = &trees[ti];
        let f = FullMerkleTree::sha256(t.leaves.clone());
        let k = ctx.idx(t.leaves.len());
        let p = f.inclusion_proof(k).unwrap();
        let (mut index, mut lemma, mut elem, mut root) = (p.proof_index(), p.lemma().to_vec(), t.leaves[k], f.root());
        let kind = ctx.below(12);
        let what = match kind {
            0 => "intact",
            1 => {
                let b = ctx.idx(256);
                let bit = 1u8 << (b % 8);
                match ctx.below(3) {
                    0 if !lemma.is_empty() => {
                        let j = ctx.idx(lemma.len());
                        lemma[j].0[b / 8] ^= bit;
                    }
                    1 => root.0[b / 8] ^= bit,
                    _ => elem.0[b / 8] ^= bit,
                }
                "bit_flip"
            }
            2 => {
                if !lemma.is_empty() {
                    lemma.remove(ctx.idx(lemma.len()));
                }
                "node_lost"
            }
            3 => {
                if !lemma.is_empty() {
                    let j = ctx.idx(lemma.len());
                    let x = lemma[j];
                    lemma.insert(j, x);
                }
                "node_duplicated"
            }
            4 => {
                if lemma.len() > 1 {
                    let j = ctx.idx(lemma.len() - 1);
                    lemma.swap(j, j + 1);
                }
                "nodes_swapped"
            }
            5 => {
                let o = ctx.idx(t.leaves.len());
                let q = f.inclusion_proof(o).unwrap();
                match ctx.below(3) {
                    0 => lemma = q.lemma().to_vec(),
                    1 => elem = t.leaves[o],
                    _ => index = q.proof_index(),
                }
                "mixed_up"
            }
            6 => {
                let m = 60 + ctx.idx(80);
                while lemma.len() < m {
                    let x = *ctx.pick(&t.leaves);
                    lemma.push(x);
                }
                index = if ctx.chance(1, 2) { usize::MAX } else { index };
                if ctx.chance(1, 2) {
                    // A tree taller than an index has bits: only the leaves at its left have proofs.
                    root = ref_climb(index, &lemma, elem);
                }
                "oversized_proof"
            }
            7 => {
                let m = ctx.idx(t.leaves.len());
                root = ref_root(&t.leaves[..m]);
                "stale_root"
            }
            8 => {
                index ^= 1usize << ctx.idx(64);
                "index_changed"
            }
            9 => {
                elem = sha256_concat(elem, root);
                "mixed_up"
            }
            10 => {
                // A node that looks harmless, anywhere.
                let x = *ctx.pick(&[EMPTY_SHA256, Sha256([0; 32]), elem, root, Sha256([0xff; 32])]);
                for _ in 0..1 + ctx.below(3) {
                    let j = if ctx.chance(1, 2) { lemma.len() } else { ctx.idx(lemma.len() + 1) };
                    lemma.insert(j, x);
                }
                "node_inserted"
            }
            _ => {
                lemma.truncate(ctx.idx(lemma.len() + 1));
                if ctx.chance(1, 2) {
                    elem = *ctx.pick(&[EMPTY_SHA256, Sha256([0; 32]), root]);
                }
                "truncated"
            }
        };
        if kind != 0 {
            ctx.fault(what);
        }
        let q = InclusionProof::sha256(index, lemma.clone());
        ensure_eq!(q.lemma(), &lemma[..], "proof-changed", "lemma of the received proof");
        ensure_eq!(q.proof_index(), index, "proof-changed", "index of the received proof");
        let want = ref_verify(index, &lemma, elem, root);
        let got = q.verify(elem, root);
        ctx.op(if want { "valid_proof" } else { "invalid_proof" });
        ev!(ctx, "{what} proof of leaf {k} of {}: {got}", t.leaves.len());
        ctx.state(simkit::rng::mix("m", &[t.leaves.len() as u64, index as u64, lemma.len() as u64, kind]));
        ensure_eq!(got, want, if want { "proof-rejected" } else { "forgery-accepted" }, "verdict on the {what} proof of leaf {k} of {}", t.leaves.len());
        ensure_eq!(q.root(elem) == root, want, "forgery-accepted", "root computed from the {what} proof");
    }
    Ok(())
}
