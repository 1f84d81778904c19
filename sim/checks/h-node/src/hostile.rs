//! Peers that send anything at all: noise, broken frames, and real messages with something changed in them.

use crate::{net::*, traffic::*, world::*};
use bytes::BytesMut;
use simkit::{Ctx, Fail, Res, ev};
use simrt::NodeId;
use std::{
    cell::RefCell,
    net::{IpAddr, Ipv4Addr, SocketAddr},
    rc::Rc,
};
use witnet_data_structures::{
    chain::{Bn256SecretKey, CheckpointBeacon, Hash, InventoryEntry, SuperBlock, SuperBlockVote, Block, BlockMerkleRoots},
    get_protocol_version,
    proto::versioning::{ProtocolVersion, Versioned, VersionedHashable},
    transaction::{CommitTransaction, DRTransaction, TallyTransaction, Transaction, VTTransaction},
    types::{Command, GetPeers, InventoryAnnouncement, InventoryRequest, LastBeacon, Message, Peers, Verack},
};

/// One connection to a node.
struct Line {
    to: usize,
    write: Rc<RefCell<Option<tokio::net::tcp::OwnedWriteHalf>>>,
    got: Rc<RefCell<Vec<u8>>>,
    polite: bool,
    greeted: bool,
    /// Says nothing that cannot be decoded.
    careful: bool,
}

struct Attacker {
    id: NodeId,
    ip: IpAddr,
    lines: Vec<Line>,
}

/// A field of a message on the wire.
#[derive(Clone, Debug)]
enum Wire {
    Varint(u64),
    Fixed(Vec<u8>),
    Bytes(Vec<u8>),
    Inner(Vec<(u32, Wire)>),
}

fn varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut n = 0u64;
    for i in 0..10 {
        let x = *b.get(*at)?;
        *at += 1;
        n |= u64::from(x & 0x7f).checked_shl(7 * i)?;
        if x < 0x80 {
            return Some(n);
        }
    }
    None
}

fn put_varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

fn read(b: &[u8], depth: u32) -> Option<Vec<(u32, Wire)>> {
    let mut at = 0;
    let mut out = vec![];
    while at < b.len() {
        let tag = varint(b, &mut at)?;
        let field = u32::try_from(tag >> 3).ok().filter(|f| *f > 0 && *f < 100)?;
        let w = match tag & 7 {
            0 => Wire::Varint(varint(b, &mut at)?),
            k @ (1 | 5) => {
                let n = if k == 1 { 8 } else { 4 };
                let v = b.get(at..at + n)?.to_vec();
                at += n;
                Wire::Fixed(v)
            }
            2 => {
                let n = usize::try_from(varint(b, &mut at)?).ok()?;
                let v = b.get(at..at.checked_add(n)?)?;
                at += n;
                match if depth > 0 && !v.is_empty() { read(v, depth - 1) } else { None } {
                    Some(i) => Wire::Inner(i),
                    None => Wire::Bytes(v.to_vec()),
                }
            }
            _ => return None,
        };
        out.push((field, w));
    }
    Some(out)
}

fn write(f: &[(u32, Wire)]) -> Vec<u8> {
    let mut out = vec![];
    for (n, w) in f {
        let kind = match w {
            Wire::Varint(_) => 0,
            Wire::Fixed(v) if v.len() == 8 => 1,
            Wire::Fixed(_) => 5,
            _ => 2,
        };
        put_varint(u64::from(*n) << 3 | kind, &mut out);
        match w {
            Wire::Varint(v) => put_varint(*v, &mut out),
            Wire::Fixed(v) => out.extend(v),
            Wire::Bytes(v) => {
                put_varint(v.len() as u64, &mut out);
                out.extend(v);
            }
            Wire::Inner(i) => {
                let v = write(i);
                put_varint(v.len() as u64, &mut out);
                out.extend(v);
            }
        }
    }
    out
}

fn extreme(ctx: &Ctx, now: u64) -> u64 {
    match ctx.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::from(u32::MAX),
        4 => u64::from(u32::MAX) + 1,
        5 => i64::MAX as u64,
        6 => i64::MIN as u64,
        7 => now.wrapping_add(1),
        8 => now.wrapping_sub(1),
        _ => ctx.u64() >> ctx.below(64),
    }
}

/// Changes something, somewhere.
fn twist(ctx: &Ctx, f: &mut Vec<(u32, Wire)>) {
    if f.is_empty() {
        f.push((1 + ctx.below(20) as u32, Wire::Varint(extreme(ctx, 0))));
        return;
    }
    let i = ctx.idx(f.len());
    if let Wire::Inner(inner) = &mut f[i].1
        && ctx.chance(5, 6)
    {
        return twist(ctx, inner);
    }
    match ctx.below(8) {
        0 => {
            f.remove(i);
        }
        1 => {
            let x = f[i].clone();
            let n = if ctx.chance(1, 10) { 200 } else { 1 };
            for _ in 0..n {
                f.insert(ctx.idx(f.len() + 1), x.clone());
            }
        }
        2 => {
            let j = ctx.idx(f.len());
            f.swap(i, j);
        }
        3 => {
            let j = ctx.idx(f.len());
            f[i].1 = f[j].1.clone();
        }
        4 => f[i].0 = 1 + ctx.below(20) as u32,
        _ => {
            let w = match &f[i].1 {
                Wire::Varint(n) => Wire::Varint(extreme(ctx, *n)),
                Wire::Fixed(v) => Wire::Fixed(ctx.bytes(v.len())),
                Wire::Inner(v) => match ctx.below(4) {
                    0 => Wire::Bytes(vec![]),
                    1 => Wire::Bytes(ctx.bytes(ctx.idx(40))),
                    2 => Wire::Varint(extreme(ctx, 0)),
                    _ => Wire::Inner(v.iter().rev().cloned().collect()),
                },
                Wire::Bytes(v) => {
                    let mut v = v.clone();
                    match ctx.below(6) {
                        0 => v.clear(),
                        1 => v.truncate(ctx.idx(v.len() + 1)),
                        2 => v.extend(ctx.bytes(1 + ctx.idx(8))),
                        3 => v = ctx.bytes(v.len()),
                        4 => v = vec![if ctx.chance(1, 2) { 0 } else { 0xff }; v.len()],
                        _ if !v.is_empty() => {
                            let k = ctx.idx(v.len());
                            v[k] ^= 1 << ctx.below(8);
                        }
                        _ => v.push(0),
                    }
                    Wire::Bytes(v)
                }
            };
            f[i].1 = w;
        }
    }
}

impl Attacker {
    fn new(net: &Net, k: usize) -> Attacker {
        let id = simrt::add_node();
        let ip = IpAddr::V4(Ipv4Addr::new(203, 0, 113, 1 + k as u8));
        simrt::net::set_ip(id, ip);
        let _ = net;
        Attacker { id, ip, lines: vec![] }
    }

    fn dial(&mut self, net: &Net, to: usize, polite: bool, careful: bool) {
        let addr = net.w.nodes[to].addr;
        let line = Line { to, write: Rc::default(), got: Rc::default(), polite, greeted: false, careful };
        let (w, got) = (line.write.clone(), line.got.clone());
        simrt::on_node(self.id, || {
            simrt::spawn(async move {
                if let Ok(s) = tokio::net::TcpStream::connect(addr).await {
                    let (mut r, half) = s.into_split();
                    *w.borrow_mut() = Some(half);
                    let mut buf = BytesMut::new();
                    while let Ok(n) = std::future::poll_fn(|cx| r.poll_read(cx, &mut buf)).await {
                        if n == 0 {
                            break;
                        }
                        got.borrow_mut().extend(buf.split());
                    }
                    *w.borrow_mut() = None;
                }
            })
        });
        self.lines.push(line);
    }

    fn send(&self, line: &Line, b: &[u8]) {
        simrt::on_node(self.id, || {
            if let Some(w) = line.write.borrow_mut().as_mut() {
                let _ = w.write_now(b);
            }
        });
    }
}

fn frame(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u32).to_be_bytes()[..], b].concat()
}

/// What came in on a line, message by message.
fn received(line: &Line) -> Vec<Vec<u8>> {
    let b = line.got.borrow();
    let mut at = 0;
    let mut out = vec![];
    while b.len() >= at + 4 {
        let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        let Some(m) = b.get(at + 4..at + 4 + n) else { break };
        out.push(m.to_vec());
        at += 4 + n;
    }
    out
}

struct Forge {
    ctx: Ctx,
    magic: u16,
    version: ProtocolVersion,
    /// Real messages, to change something in.
    seen: Vec<Vec<u8>>,
    /// A block of this epoch is among them.
    fresh: bool,
}

impl Forge {
    fn pack(&self, kind: Command) -> Vec<u8> {
        Message { kind, magic: self.magic }.to_versioned_pb_bytes(self.version).expect("message")
    }

    fn hash(&self, net: &Net) -> Hash {
        let known: Vec<Hash> = { let mut h: Vec<Hash> = net.blocks.keys().copied().collect(); h.sort(); h };
        if known.is_empty() || self.ctx.chance(1, 2) { Hash::SHA256(self.ctx.bytes(32).try_into().unwrap()) } else { *self.ctx.pick(&known) }
    }

    fn epoch(&self, net: &Net) -> u32 {
        match self.ctx.below(5) {
            0 => u32::MAX,
            1 => 0,
            _ => (i64::from(net.epoch()) + self.ctx.below(7) as i64 - 3).max(0) as u32,
        }
    }

    fn beacon(&self, net: &Net) -> LastBeacon {
        let b = |checkpoint| CheckpointBeacon { checkpoint, hash_prev_block: self.hash(net) };
        let e = self.epoch(net);
        LastBeacon { highest_block_checkpoint: b(e), highest_superblock_checkpoint: b(if self.ctx.chance(1, 2) { e / 5 } else { self.epoch(net) }) }
    }

    /// A message that is well-formed, and nothing that an honest peer would say.
    fn lie(&self, net: &Net) -> Command {
        let ctx = &self.ctx;
        match ctx.below(9) {
            0 => Command::LastBeacon(self.beacon(net)),
            1 => Command::InventoryAnnouncement(InventoryAnnouncement { inventory: self.entries(net) }),
            2 => Command::InventoryRequest(InventoryRequest { inventory: self.entries(net) }),
            3 => {
                let bn = Bn256SecretKey::from_slice(&ctx.bytes(32)).unwrap_or_else(|_| net.w.nodes[0].bn_sk.clone());
                let index = if ctx.chance(1, 2) { net.epoch() / 5 } else { self.epoch(net) };
                let mut v = SuperBlockVote::new_unsigned(self.hash(net), index);
                let owner = client_keys(ctx.idx(3));
                let msg = v.bn256_signature_message();
                if let Ok(s) = bn.sign(&msg) {
                    v.set_bn256_signature(s);
                }
                let h = witnet_crypto::hash::calculate_sha256(&v.secp256k1_signature_message());
                v.set_secp256k1_signature(sign(&owner, h.into()));
                Command::SuperBlockVote(v)
            }
            4 => {
                let e = self.epoch(net);
                Command::SuperBlock(SuperBlock::new(ctx.below(10) as u32, self.hash(net), self.hash(net), e / 5, self.hash(net), self.hash(net), self.hash(net)))
            }
            5 => match Message::build_peers(self.magic, &vec!["203.0.113.9:21337".parse().unwrap(); ctx.skewed(300) as usize]).kind {
                Command::Peers(p) => Command::Peers(Peers { peers: p.peers }),
                c => c,
            },
            6 => Command::GetPeers(GetPeers),
            7 => Command::Verack(Verack),
            _ => match self.greeting(net, ctx.pick(&[0, i64::MAX, i64::MIN, -1, 1_000_000]).to_owned()) {
                Command::Version(v) => Command::Version(v),
                c => c,
            },
        }
    }

    fn entries(&self, net: &Net) -> Vec<InventoryEntry> {
        let ctx = &self.ctx;
        let n = if ctx.chance(1, 12) { 2000 } else { ctx.skewed(20) };
        (0..n)
            .map(|_| match ctx.below(5) {
                0 => InventoryEntry::Tx(self.hash(net)),
                1 => InventoryEntry::SuperBlock(self.epoch(net) / 5),
                _ => InventoryEntry::Block(self.hash(net)),
            })
            .collect()
    }

    fn greeting(&self, net: &Net, drift: i64) -> Command {
        let now = simrt::now() / SEC - 1007 + ZERO;
        let v = net.view.iter().find(|v| v.state.is_some());
        let beacon = v.map(|v| v.tip).unwrap_or_default();
        let b = LastBeacon { highest_block_checkpoint: beacon, highest_superblock_checkpoint: beacon };
        let m = Message::build_version(self.magic, Some("203.0.113.200:21337".parse().unwrap()), "10.1.0.1:21337".parse().unwrap(), b);
        match m.kind {
            Command::Version(mut v) => {
                v.timestamp = now.wrapping_add(drift);
                Command::Version(v)
            }
            c => c,
        }
    }

    /// A block by someone who may make one, with something wrong in it.
    fn block(&self, net: &Net) -> Option<Block> {
        let ctx = &self.ctx;
        let mine: Vec<Block> = self
            .seen
            .iter()
            .filter_map(|b| match Message::from_versioned_pb_bytes(b).ok()?.kind {
                Command::Block(b) => Some(b),
                _ => None,
            })
            .collect();
        let last = mine.iter().map(|b| b.block_header.beacon.checkpoint).max()?;
        let new: Vec<&Block> = mine.iter().filter(|b| b.block_header.beacon.checkpoint == last).collect();
        let mut b: Block = (*ctx.pick(&new)).clone();
        let other = ctx.pick(&mine).clone();
        let wrong = ctx.below(16);
        match wrong {
            0 => b.txns.mint.outputs.iter_mut().for_each(|o| o.value = extreme(ctx, o.value)),
            1 => b.txns.mint.outputs.clear(),
            2 => b.txns.value_transfer_txns = other.txns.value_transfer_txns,
            3 => b.txns.data_request_txns = other.txns.data_request_txns,
            4 => b.txns.tally_txns.extend(other.txns.tally_txns),
            5 => b.txns.reveal_txns.extend(other.txns.reveal_txns),
            6 => b.txns.commit_txns.extend(other.txns.commit_txns),
            7 => b.txns.mint.epoch = extreme(ctx, b.txns.mint.epoch.into()) as u32,
            8 => b.block_header.beacon.hash_prev_block = self.hash(net),
            9 => {
                let t = b.txns.value_transfer_txns.clone();
                b.txns.value_transfer_txns.extend(t);
            }
            10 => {
                for t in &mut b.txns.value_transfer_txns {
                    let mut body = t.body.clone();
                    for o in &mut body.outputs {
                        o.value = if ctx.chance(1, 2) { o.value / 2 } else { extreme(ctx, o.value) };
                    }
                    *t = VTTransaction::new(body, t.signatures.clone());
                }
            }
            11 => b.txns.tally_txns.clear(),
            12 => b.txns.reveal_txns.clear(),
            13 => {
                for t in &mut b.txns.tally_txns {
                    match ctx.below(5) {
                        0 => t.tally = ctx.bytes(ctx.idx(9)),
                        1 => t.outputs.iter_mut().for_each(|o| o.value = extreme(ctx, o.value)),
                        2 => t.outputs.clear(),
                        3 => t.out_of_consensus = t.error_committers.clone(),
                        _ => t.error_committers.clear(),
                    }
                    let n = TallyTransaction::new(t.dr_pointer, t.tally.clone(), t.outputs.clone(), t.out_of_consensus.clone(), t.error_committers.clone());
                    *t = n;
                }
            }
            14 => {
                for t in &mut b.txns.commit_txns {
                    let mut body = t.body.clone();
                    match ctx.below(3) {
                        0 => body.outputs.iter_mut().for_each(|o| o.value = extreme(ctx, o.value)),
                        1 => body.collateral.clear(),
                        _ => body.dr_pointer = self.hash(net),
                    }
                    *t = CommitTransaction::new(body, t.signatures.clone());
                }
            }
            _ => {
                for t in &mut b.txns.data_request_txns {
                    let mut body = t.body.clone();
                    match ctx.below(5) {
                        0 => body.dr_output.witnesses = extreme(ctx, 0) as u16,
                        1 => body.dr_output.witness_reward = extreme(ctx, 0),
                        2 => body.dr_output.min_consensus_percentage = extreme(ctx, 0) as u32,
                        3 => body.dr_output.collateral = extreme(ctx, 0),
                        _ => body.dr_output.data_request.retrieve.clear(),
                    }
                    *t = DRTransaction::new(body, t.signatures.clone());
                }
            }
        }
        let v = get_protocol_version(Some(last));
        b.block_header.merkle_roots = BlockMerkleRoots::from_transactions(&b.txns, v);
        let node = net.w.nodes.iter().find(|n| n.pk == b.block_sig.public_key)?;
        let fresh = Block::new(b.block_header, b.block_sig, b.txns);
        let h = fresh.versioned_hash(v);
        let c = Client { sk: node.sk.clone().into(), pk: node.pk.clone(), pkh: node.pkh };
        let sig = sign(&c, h);
        ctx.probe("forged_block");
        Some(Block::new(fresh.block_header, sig, fresh.txns))
    }

    fn next(&self, net: &Net) -> Vec<u8> {
        let ctx = &self.ctx;
        let seen = |ctx: &Ctx| if self.seen.is_empty() { None } else { Some(ctx.pick(&self.seen).clone()) };
        match ctx.weighted(&[2, 3, 12, 6, if self.fresh { 12 } else { 2 }, 1]) {
            0 => {
                ctx.fault("noise");
                ctx.bytes(ctx.skewed(300) as usize)
            }
            1 => {
                ctx.fault("flipped bits");
                let mut b = seen(ctx).unwrap_or_else(|| self.pack(self.lie(net)));
                for _ in 0..1 + ctx.skewed(4) {
                    if !b.is_empty() {
                        let k = ctx.idx(b.len());
                        b[k] ^= 1 << ctx.below(8);
                    }
                }
                if ctx.chance(1, 3) {
                    b.truncate(ctx.idx(b.len() + 1));
                }
                b
            }
            2 => {
                ctx.fault("changed field");
                let b = seen(ctx).filter(|_| ctx.chance(3, 4)).unwrap_or_else(|| self.pack(self.lie(net)));
                let Some(mut f) = read(&b, 12) else { return b };
                for _ in 0..1 + ctx.skewed(3) {
                    twist(ctx, &mut f);
                }
                write(&f)
            }
            3 => {
                ctx.fault("lie");
                self.pack(self.lie(net))
            }
            4 => match self.block(net) {
                Some(b) => {
                    ctx.fault("forged block");
                    self.pack(Command::Block(b))
                }
                None => self.pack(self.lie(net)),
            },
            _ => {
                ctx.fault("replay");
                seen(ctx).unwrap_or_default()
            }
        }
    }
}

/// Nothing a peer sends stops the others.
pub fn v07(ctx: &Ctx) -> Res {
    let nodes = ctx.range(3, 4) as usize;
    let coins = client_coins(ctx, 3);
    let v2 = ctx.chance(1, 3);
    let (mut net, mut t) = if v2 {
        crate::staking_net(ctx, nodes, coins)?
    } else {
        let mut net = Net::new(ctx, Opts { nodes, extra_alloc: coins, ..Opts::default() })?;
        let t = Traffic::new(ctx, &net, 3);
        net.run(7 * SEC + 20 * SEC)?;
        (net, t)
    };
    ctx.probe_if(v2, "proof_of_stake");
    let period = if v2 { 20 } else { 45 };
    let mut bad: Vec<Attacker> = (0..1 + ctx.idx(2)).map(|k| Attacker::new(&net, k)).collect();
    let victims: Vec<usize> = (0..nodes).filter(|_| ctx.chance(2, 3)).collect();
    let victims = if victims.is_empty() { vec![0] } else { victims };
    let mut forge = Forge { ctx: ctx.clone(), magic: net.w.magic, version: ProtocolVersion::V1_7, seen: vec![], fresh: false };
    for _ in 0..ctx.range(6, 14) {
        ctx.phase();
        net.observe_all()?;
        forge.fresh = false;
        forge.version = get_protocol_version(Some(net.epoch()));
        // Real messages, from the chain.
        for (_, b) in net.blocks.iter().filter(|(_, b)| b.block_header.beacon.checkpoint + 6 > net.epoch()).collect::<std::collections::BTreeMap<_, _>>() {
            if ctx.chance(1, 3) {
                forge.seen.push(forge.pack(Command::Block(b.clone())));
                for x in &b.txns.value_transfer_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::ValueTransfer(x.clone()))));
                }
                for x in &b.txns.data_request_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::DataRequest(x.clone()))));
                }
                for x in &b.txns.commit_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::Commit(x.clone()))));
                }
                for x in &b.txns.reveal_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::Reveal(x.clone()))));
                }
                for x in &b.txns.tally_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::Tally(x.clone()))));
                }
                for x in &b.txns.stake_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::Stake(x.clone()))));
                }
                for x in &b.txns.unstake_txns {
                    forge.seen.push(forge.pack(Command::Transaction(Transaction::Unstake(x.clone()))));
                }
            }
        }
        let keep = forge.seen.len().saturating_sub(150);
        forge.seen.drain(..keep);
        let start = simrt::now();
        let end = start + (period - 6) * SEC;
        while simrt::now() < end {
            match ctx.below(6) {
                0 => {
                    if v2 { t.act2(&mut net)? } else { t.act(&mut net)? }
                }
                1 => {
                    let a = ctx.idx(bad.len());
                    if bad[a].lines.len() < 6 {
                        let to = *ctx.pick(&victims);
                        bad[a].dial(&net, to, ctx.chance(5, 6), ctx.chance(2, 3));
                    } else {
                        // Hangs up.
                        let k = ctx.idx(bad[a].lines.len());
                        let l = bad[a].lines.swap_remove(k);
                        simrt::on_node(bad[a].id, || *l.write.borrow_mut() = None);
                    }
                }
                _ => {
                    let n = bad.len();
                    let a = &mut bad[ctx.idx(n)];
                    if a.lines.is_empty() {
                        net.run(SEC)?;
                        continue;
                    }
                    let k = ctx.idx(a.lines.len());
                    if a.lines[k].write.borrow().is_none() {
                        a.lines.swap_remove(k);
                        continue;
                    }
                    if a.lines[k].polite && !a.lines[k].greeted {
                        a.lines[k].greeted = true;
                        let g = forge.pack(forge.greeting(&net, 0));
                        a.send(&a.lines[k], &frame(&g));
                        let v = forge.pack(Command::Verack(Verack));
                        a.send(&a.lines[k], &frame(&v));
                        net.run(SEC)?;
                        continue;
                    }
                    for m in received(&a.lines[k]) {
                        let Ok(x) = Message::from_versioned_pb_bytes(&m) else { continue };
                        match x.kind {
                            Command::Version(_) | Command::Verack(_) => continue,
                            Command::InventoryAnnouncement(i) => {
                                let r = forge.pack(Command::InventoryRequest(InventoryRequest { inventory: i.inventory }));
                                a.send(&a.lines[k], &frame(&r));
                            }
                            Command::Block(b) if b.block_header.beacon.checkpoint == net.epoch() => {
                                forge.fresh = true;
                                ctx.probe("heard_candidate");
                            }
                            _ => {}
                        }
                        ctx.probe("heard");
                        forge.seen.push(m);
                    }
                    a.lines[k].got.borrow_mut().clear();
                    let n = if ctx.chance(1, 20) { 60 } else { 1 + ctx.skewed(6) };
                    for _ in 0..n {
                        let mut m = forge.next(&net);
                        if a.lines[k].careful {
                            for _ in 0..8 {
                                if Message::from_versioned_pb_bytes(&m).is_ok_and(|m| m.magic == forge.magic) {
                                    break;
                                }
                                m = forge.next(&net);
                            }
                        }
                        let mut f = frame(&m);
                        match ctx.below(24) {
                            0 => {
                                ctx.fault("wrong length");
                                f[..4].copy_from_slice(&(*ctx.pick(&[0, 1, u32::MAX, 1 << 20, m.len() as u32 + 3, (m.len() as u32).saturating_sub(3)])).to_be_bytes());
                                a.send(&a.lines[k], &f);
                            }
                            1 => {
                                ctx.fault("halting");
                                let cut = ctx.idx(f.len());
                                a.send(&a.lines[k], &f[..cut]);
                                net.run(ctx.below(3) as i64 * SEC)?;
                                a.send(&a.lines[k], &f[cut..]);
                            }
                            _ => a.send(&a.lines[k], &f),
                        }
                        ctx.op("message");
                    }
                    ctx.nontrivial();
                    ev!(ctx, "{n} messages to {}", a.lines[k].to);
                }
            }
            net.run(ctx.below(6) as i64 * SEC / 2)?;
        }
        for i in 0..nodes {
            if ctx.chance(1, 2) {
                t.check_state(&mut net, i)?;
            }
        }
        net.next_epoch(5 * SEC)?;
    }
    // They leave, and the network is as it was.
    for a in &mut bad {
        simrt::kill_node(a.id);
        a.lines.clear();
    }
    ev!(ctx, "left alone");
    let confirmed = net.final_.keys().next_back().copied().unwrap_or(0);
    let mut last = vec![];
    for k in 0..100 {
        net.next_epoch(5 * SEC)?;
        net.observe_all()?;
        if !net.settled() {
            continue;
        }
        let n = t.insist(&mut net)?;
        let l = t.ledger(&net, 0)?.expect("a ledger");
        let open = l.requests.values().filter(|r| r.tally.is_none()).count();
        last = vec![n, open];
        let now = net.final_.keys().next_back().copied().unwrap_or(0);
        if n == 0 && open == 0 && k > 3 && now > confirmed {
            for i in 0..nodes {
                t.check_state(&mut net, i)?;
            }
            return Ok(());
        }
    }
    Err(Fail::new("no-progress", format!("100 epochs after they left: {last:?} {}", net.summary())))
}
