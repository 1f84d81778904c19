//! One node among peers of every kind: whom it lets in, whom it calls on, and what it remembers of them.

use crate::world::*;
use bytes::BytesMut;
use simkit::{Ctx, Fail, Res, ensure, ev};
use simrt::NodeId;
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, VecDeque},
    net::{IpAddr, Ipv4Addr, SocketAddr},
    rc::Rc,
    time::Duration,
};
use witnet_data_structures::{
    chain::{CheckpointBeacon, Hash},
    proto::versioning::{ProtocolVersion, Versioned},
    types::{Command, GetPeers, LastBeacon, Message, Verack},
};
use witnet_p2p::peers::{Peers as Book};

const PORT: u16 = 21337;
const MAX_DRIFT: i64 = 20;

/// How a peer answers whoever calls.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Good,
    /// Greets well, then sends addresses nobody asked for.
    Pushy,
    /// Greets well, then something that is no message, or is of another network.
    Babbler,
    /// Greets well, and leaves.
    Fickle,
    Silent,
    WrongMagic,
    Drifted(i64),
    Fork,
    Future,
    NoVerack,
    NoVersion,
    Garbage,
    Closes,
}
use Kind::*;
impl Kind {
    /// A node may keep a session with it.
    fn greets(self) -> bool {
        matches!(self, Good | Pushy | Babbler | Fickle)
    }
}

#[derive(Default)]
struct Line {
    /// The node called.
    called: bool,
    boot: u32,
    opened: i64,
    closed: Option<i64>,
    /// This end closed it, or did what makes the other end do so.
    offended: Option<i64>,
    greeted: bool,
    acked: bool,
    /// What the node said.
    version: bool,
    verack: bool,
    asked: u32,
    answered: u32,
    /// The last epoch it said its beacon in.
    beacon_for: i64,
    queue: VecDeque<Vec<u8>>,
    write: Option<tokio::net::tcp::OwnedWriteHalf>,
    waker: Option<std::task::Waker>,
}
type LineRef = Rc<RefCell<Line>>;

struct Peer {
    id: NodeId,
    addr: SocketAddr,
    kind: Rc<Cell<Kind>>,
    /// What it tells those who ask for addresses.
    tells: Rc<RefCell<Vec<SocketAddr>>>,
    lines: Rc<RefCell<Vec<LineRef>>>,
    listening: bool,
}

struct Shared {
    truth: LastBeacon,
    /// What the node answered to those who asked it for addresses.
    gave: Vec<Vec<SocketAddr>>,
    /// What it has been told about.
    told: BTreeSet<SocketAddr>,
    /// Peers it called and greeted without a flaw.
    met: BTreeSet<SocketAddr>,
    /// When it had to learn that a peer is of no use.
    bad: Vec<(SocketAddr, i64)>,
    boot: u32,
    magic: u16,
}

type Hub = Rc<RefCell<Shared>>;

fn clock() -> i64 {
    simrt::now() / SEC - 1007 + ZERO
}

fn pack(magic: u16, kind: Command) -> Vec<u8> {
    let b = Message { kind, magic }.to_versioned_pb_bytes(ProtocolVersion::V1_7).expect("message");
    [&(b.len() as u32).to_be_bytes()[..], &b].concat()
}

fn say(l: &LineRef, b: Vec<u8>) {
    let mut l = l.borrow_mut();
    l.queue.push_back(b);
    if let Some(w) = l.waker.take() {
        w.wake();
    }
}

fn hang_up(l: &LineRef) {
    let mut l = l.borrow_mut();
    l.write = None;
    l.queue.clear();
    let now = simrt::now();
    l.closed.get_or_insert(now);
    l.offended.get_or_insert(now);
    if let Some(w) = l.waker.take() {
        w.wake();
    }
}

fn version(hub: &Hub, from: Option<SocketAddr>, drift: i64, beacon: LastBeacon) -> Command {
    let m = Message::build_version(hub.borrow().magic, from, "10.1.0.1:21337".parse().unwrap(), beacon);
    match m.kind {
        Command::Version(mut v) => {
            v.timestamp = clock() + drift;
            Command::Version(v)
        }
        c => c,
    }
}

/// A connection, whoever opened it.
fn serve(ctx: &Ctx, hub: &Hub, p: &Peer, s: tokio::net::TcpStream, called: bool, line: LineRef) {
    let (mut r, w) = s.into_split();
    {
        let mut l = line.borrow_mut();
        l.called = called;
        l.boot = hub.borrow().boot;
        l.opened = simrt::now();
        l.write = Some(w);
    }
    p.lines.borrow_mut().push(line.clone());
    let pieces = ctx.chance(1, 3);
    // What is to be said, possibly in pieces.
    let (out, c) = (line.clone(), ctx.clone());
    simrt::spawn(async move {
        loop {
            let next = std::future::poll_fn(|cx| {
                let mut l = out.borrow_mut();
                if l.closed.is_some() {
                    return std::task::Poll::Ready(None);
                }
                match l.queue.pop_front() {
                    Some(b) => std::task::Poll::Ready(Some(b)),
                    None => {
                        l.waker = Some(cx.waker().clone());
                        std::task::Poll::Pending
                    }
                }
            })
            .await;
            let Some(mut b) = next else { break };
            if pieces {
                // Several messages at once, cut anywhere.
                while c.chance(1, 2)
                    && let Some(more) = out.borrow_mut().queue.pop_front()
                {
                    b.extend(more);
                }
                while b.len() > 1 && c.chance(2, 3) {
                    let rest = b.split_off(1 + c.idx(b.len() - 1));
                    if let Some(w) = out.borrow_mut().write.as_mut() {
                        let _ = w.write_now(&b);
                    }
                    b = rest;
                    simrt::sleep(Duration::from_millis(c.below(150))).await;
                }
            }
            if let Some(w) = out.borrow_mut().write.as_mut() {
                let _ = w.write_now(&b);
            }
        }
    });
    let (hub, kind, tells, me) = (hub.clone(), p.kind.clone(), p.tells.clone(), p.addr);
    let c = ctx.clone();
    simrt::spawn(async move {
        let mut all: Vec<u8> = vec![];
        let mut buf = BytesMut::new();
        while let Ok(n) = std::future::poll_fn(|cx| r.poll_read(cx, &mut buf)).await {
            if n == 0 || line.borrow().closed.is_some() {
                break;
            }
            all.extend(buf.split());
            loop {
                if all.len() < 4 {
                    break;
                }
                let n = u32::from_be_bytes(all[..4].try_into().unwrap()) as usize;
                if all.len() < 4 + n {
                    break;
                }
                let m: Vec<u8> = all.drain(..4 + n).skip(4).collect();
                let Ok(m) = Message::from_versioned_pb_bytes(&m) else { continue };
                heard(&c, &hub, kind.get(), &tells, me, &line, m.kind);
            }
        }
        let mut l = line.borrow_mut();
        l.closed.get_or_insert(simrt::now());
        l.write = None;
        if let Some(w) = l.waker.take() {
            w.wake();
        }
    });
}

fn heard(ctx: &Ctx, hub: &Hub, kind: Kind, tells: &Rc<RefCell<Vec<SocketAddr>>>, me: SocketAddr, line: &LineRef, m: Command) {
    let magic = hub.borrow().magic;
    let called = line.borrow().called;
    match m {
        Command::Version(v) => {
            hub.borrow_mut().truth = v.beacon.clone();
            line.borrow_mut().version = true;
            if !called {
                // The answer to a greeting.
                say(line, pack(magic, Command::Verack(Verack)));
                line.borrow_mut().acked = true;
                return;
            }
            let mut b = v.beacon.clone();
            let flawed = |b: LastBeacon, drift, magic, ack: bool| {
                say(line, pack(magic, version(hub, Some(me), drift, b)));
                if ack {
                    say(line, pack(magic, Command::Verack(Verack)));
                }
            };
            if matches!(kind, WrongMagic | Garbage | Drifted(_) | Future) {
                hub.borrow_mut().bad.push((me, simrt::now()));
            }
            match kind {
                Good | Pushy | Babbler | Fickle => {
                    // A little wrong is right enough.
                    let drift = *ctx.pick(&[0, 0, 3 - MAX_DRIFT, MAX_DRIFT - 3]);
                    if ctx.chance(1, 4) {
                        say(line, pack(magic, Command::Verack(Verack)));
                        flawed(b, drift, magic, false);
                    } else {
                        flawed(b, drift, magic, true);
                    }
                    hub.borrow_mut().met.insert(me);
                    let mut l = line.borrow_mut();
                    l.greeted = true;
                    l.acked = true;
                }
                Silent => {}
                WrongMagic => flawed(b, 0, magic ^ 1, true),
                Drifted(d) => flawed(b, d, magic, true),
                Fork => {
                    b.highest_superblock_checkpoint.hash_prev_block = Hash::SHA256(ctx.bytes(32).try_into().unwrap());
                    flawed(b, 0, magic, true)
                }
                Future => {
                    b.highest_block_checkpoint.checkpoint = *ctx.pick(&[u32::MAX, b.highest_block_checkpoint.checkpoint + 1000]);
                    flawed(b, 0, magic, true)
                }
                NoVerack => flawed(b, 0, magic, false),
                NoVersion => say(line, pack(magic, Command::Verack(Verack))),
                Garbage => {
                    let n = 1 + ctx.idx(60);
                    say(line, [&(n as u32).to_be_bytes()[..], &[0xff], &ctx.bytes(n - 1)].concat())
                }
                Closes => hang_up(line),
            }
        }
        Command::Verack(_) => {
            line.borrow_mut().verack = true;
            let l = line.borrow();
            if called && l.greeted && kind != Good {
                drop(l);
                let (ctx, hub, line) = (ctx.clone(), hub.clone(), line.clone());
                simrt::spawn(async move {
                    // Long enough to tell a session from one that only looks whether it is there.
                    simrt::sleep(Duration::from_millis(3500)).await;
                    if line.borrow().closed.is_some() {
                        return;
                    }
                    ctx.fault(match kind { Fickle => "hangs up", Pushy => "unwanted addresses", _ => "nonsense" });
                    line.borrow_mut().offended = Some(simrt::now());
                    match kind {
                        Fickle => hang_up(&line),
                        Pushy => {
                            hub.borrow_mut().bad.push((me, simrt::now()));
                            // The first may be taken for the answer to a question.
                            let lie: SocketAddr = "203.0.113.77:21337".parse().unwrap();
                            hub.borrow_mut().told.insert(lie);
                            for _ in 0..4 {
                                say(&line, pack(magic, Message::build_peers(magic, &[lie]).kind));
                            }
                        }
                        _ => {
                            hub.borrow_mut().bad.push((me, simrt::now()));
                            say(&line, if ctx.chance(1, 2) { vec![0, 0, 0, 2, 0xff, 0xff] } else { pack(magic ^ 2, Command::GetPeers(GetPeers)) });
                        }
                    }
                });
            }
        }
        Command::GetPeers(_) => {
            let t = tells.borrow().clone();
            hub.borrow_mut().told.extend(t.iter().copied());
            say(line, pack(magic, Message::build_peers(magic, &t).kind));
        }
        Command::Peers(p) => {
            line.borrow_mut().answered += 1;
            let a = p.peers.iter().map(witnet_data_structures::builders::from_address).collect();
            hub.borrow_mut().gave.push(a);
        }
        Command::LastBeacon(b) => hub.borrow_mut().truth = b,
        _ => {}
    }
}

impl Peer {
    fn listen(&mut self, ctx: &Ctx, hub: &Hub) {
        if self.listening {
            return;
        }
        self.listening = true;
        let (ctx, hub) = (ctx.clone(), hub.clone());
        let me = Peer { id: self.id, addr: self.addr, kind: self.kind.clone(), tells: self.tells.clone(), lines: self.lines.clone(), listening: true };
        simrt::on_node(self.id, || {
            simrt::spawn(async move {
                let l = tokio::net::TcpListener::bind(&me.addr).await.expect("port");
                while let Ok((s, _)) = l.accept().await {
                    serve(&ctx, &hub, &me, s, true, LineRef::default());
                }
            })
        });
    }

    /// Calls the node; `good` greets as it should.
    fn call(&self, ctx: &Ctx, hub: &Hub, to: SocketAddr, good: Kind, sender: Option<SocketAddr>) {
        let (c, hub) = (ctx.clone(), hub.clone());
        let me = Peer { id: self.id, addr: self.addr, kind: Rc::new(Cell::new(good)), tells: self.tells.clone(), lines: self.lines.clone(), listening: true };
        simrt::on_node(self.id, || {
            simrt::spawn(async move {
                let Ok(s) = tokio::net::TcpStream::connect(to).await else { return };
                let line = LineRef::default();
                serve(&c, &hub, &me, s, false, line.clone());
                let magic = hub.borrow().magic;
                let truth = hub.borrow().truth.clone();
                let (m, drift, ok) = match good {
                    WrongMagic => (magic ^ 1, 0, false),
                    Drifted(d) => (magic, d, false),
                    Silent => return,
                    Garbage => return say(&line, [&5u32.to_be_bytes()[..], &[0xff; 5]].concat()),
                    Closes => return hang_up(&line),
                    _ => (magic, *c.pick(&[0, 3 - MAX_DRIFT, MAX_DRIFT - 3]), true),
                };
                if ok {
                    line.borrow_mut().greeted = true;
                    if let Some(s) = sender {
                        hub.borrow_mut().told.insert(s);
                    }
                }
                // What an inbound peer says of the chain does not matter.
                let mut b = truth.clone();
                if c.chance(1, 4) {
                    b.highest_superblock_checkpoint = CheckpointBeacon { checkpoint: c.below(9) as u32, hash_prev_block: Hash::SHA256([7; 32]) };
                }
                say(&line, pack(m, version(&hub, sender, drift, b)));
            })
        });
    }
}

struct Town {
    w: World,
    ctx: Ctx,
    hub: Hub,
    peers: Vec<Peer>,
    out_limit: usize,
    in_limit: usize,
    sybil: Option<u8>,
    ice: i64,
    melt: i64,
    /// Since when each address is in the list of the tried ones.
    tried: BTreeMap<SocketAddr, i64>,
    new: BTreeSet<SocketAddr>,
    /// What the list of tried peers had recently.
    recent: VecDeque<(i64, BTreeSet<SocketAddr>)>,
    /// The node is not to touch these till then.
    iced: BTreeMap<SocketAddr, (i64, i64)>,
    /// It always calls, and hears how the chain goes on.
    friend: SocketAddr,
}

impl Town {
    fn ms(&mut self, ms: i64) -> Res {
        // Looking often enough to see what is there when.
        let mut rest = ms;
        while rest > 1500 {
            self.bit(1000)?;
            rest -= 1000;
        }
        self.bit(rest)
    }

    fn bit(&mut self, ms: i64) -> Res {
        self.w.run_ns(ms * SEC / 1000)?;
        let f = self.peers.iter().find(|p| p.addr == self.friend).unwrap();
        if self.w.nodes[0].up && f.lines.borrow().iter().all(|l| l.borrow().closed.is_some()) {
            f.call(&self.ctx, &self.hub, self.w.nodes[0].addr, Good, None);
        }
        self.beacons();
        self.observe()
    }

    /// Peers that the node calls say once per epoch what their chain ends with: what the node's does.
    fn beacons(&mut self) {
        let now = clock();
        let e = (now - ZERO).div_euclid(45);
        if e < 0 || (now - ZERO).rem_euclid(45) < 2 {
            return;
        }
        let b = self.hub.borrow().truth.clone();
        let magic = self.hub.borrow().magic;
        for p in &self.peers {
            for l in p.lines.borrow().iter() {
                let ok = { let l = l.borrow(); l.called && l.closed.is_none() && l.offended.is_none() && l.verack && l.greeted && l.beacon_for < e };
                if ok {
                    l.borrow_mut().beacon_for = e;
                    simrt::on_node(p.id, || say(l, pack(magic, Command::LastBeacon(b.clone()))));
                }
            }
        }
    }

    fn list(&mut self, method: &str) -> Res<Vec<(SocketAddr, String)>> {
        let v = self.w.rpc(0, method, serde_json::json!([]))?;
        let Some(a) = v["result"].as_array() else {
            return Err(Fail::new("no-list", format!("{method} answers {v}")));
        };
        Ok(a.iter().map(|x| (x["address"].as_str().unwrap().parse().unwrap(), x["type"].as_str().unwrap().to_string())).collect())
    }

    fn observe(&mut self) -> Res {
        if !self.w.nodes[0].up {
            return Ok(());
        }
        let now = simrt::now();
        // Sessions.
        let s = self.list("peers")?;
        let inb: Vec<SocketAddr> = s.iter().filter(|x| x.1 == "inbound").map(|x| x.0).collect();
        let out: Vec<SocketAddr> = s.iter().filter(|x| x.1 == "outbound").map(|x| x.0).collect();
        self.ctx.state((inb.len() * 100 + out.len()) as u64);
        ensure!(inb.len() <= self.in_limit, "too-many-inbound", "{} inbound sessions, {} allowed", inb.len(), self.in_limit);
        ensure!(out.len() <= self.out_limit, "too-many-outbound", "{} outbound sessions, {} allowed", out.len(), self.out_limit);
        if let Some(r) = self.sybil {
            let mut seen = BTreeMap::new();
            for a in &inb {
                if let Some(b) = seen.insert(get_range(a, r), *a) {
                    return Err(Fail::new("same-range", format!("inbound sessions with {a} and {b}, though one per /{r} is allowed")));
                }
            }
        }
        self.ctx.probe_if(inb.len() == self.in_limit, "inbound_full");
        self.ctx.probe_if(out.len() == self.out_limit, "outbound_full");
        let boot = self.hub.borrow().boot;
        for (list, called) in [(&inb, false), (&out, true)] {
            for a in list {
                let p = self.peers.iter().find(|p| if called { p.addr == *a } else { p.addr.ip() == a.ip() });
                let Some(p) = p else { return Err(Fail::new("session-with-nobody", format!("a session with {a}"))) };
                // An open line on which the peer greeted, or one closed a moment ago.
                let ok = p.lines.borrow().iter().any(|l| {
                    let l = l.borrow();
                    l.called == called && l.boot == boot && l.greeted && (called || l.acked) && l.closed.or(l.offended).is_none_or(|t| now - t < 4 * SEC)
                });
                ensure!(
                    ok,
                    "unfounded-session",
                    "a session with {a} (called: {called}), which did not greet, hung up, or misbehaved: {:?}",
                    p.lines.borrow().iter().map(|l| { let l = l.borrow(); (l.called, l.greeted, l.acked, l.verack, l.closed.map(|t| now - t), l.offended.map(|t| now - t), l.boot) }).collect::<Vec<_>>()
                );
            }
        }
        // Whoever does not greet in time, or misbehaves, is cut off.
        for p in &self.peers {
            for l in p.lines.borrow().iter() {
                let l = l.borrow();
                if l.closed.is_some() || l.boot != boot {
                    continue;
                }
                if let Some(t) = l.offended {
                    ensure!(now - t < 6 * SEC, "not-cut-off", "{} misbehaved {} ms ago and is still connected", p.addr, (now - t) / 1_000_000);
                }
                let greeted = l.greeted && l.acked && l.version && l.verack;
                ensure!(greeted || now - l.opened < 11 * SEC, "never-greeted", "{} has been connected for {} ms without greeting", p.addr, (now - l.opened) / 1_000_000);
            }
        }
        // Addresses.
        let k = self.list("knownPeers")?;
        let new: BTreeSet<SocketAddr> = k.iter().filter(|x| x.1 == "new").map(|x| x.0).collect();
        let tried: BTreeSet<SocketAddr> = k.iter().filter(|x| x.1 == "tried").map(|x| x.0).collect();
        let me = self.w.nodes[0].addr;
        let hub = self.hub.borrow();
        for a in new.iter().chain(&tried) {
            ensure!(*a != me && !a.ip().is_unspecified(), "knows-itself", "{a} among the known peers");
            ensure!(hub.told.contains(a), "made-up-address", "{a} is known, and nobody told about it");
        }
        for a in &tried {
            ensure!(hub.met.contains(a), "tried-without-trying", "{a} is among the tried peers, and no session with it was ever agreed on");
        }
        // Those of no use.
        drop(hub);
        let bad: Vec<_> = self.hub.borrow_mut().bad.drain(..).collect();
        for (a, t) in bad {
            self.iced.insert(a, (t + 3 * SEC, t + self.ice * SEC - 3 * SEC));
        }
        self.iced.retain(|_, (_, to)| *to > now);
        for (a, (from, _)) in &self.iced {
            if now < *from {
                continue;
            }
            self.ctx.probe("iced");
            ensure!(!tried.contains(a), "useless-kept", "{a} is still among the tried peers, though it was of no use {} s ago", (now - from) / SEC + 3);
            ensure!(!new.contains(a) || self.new.contains(a), "useless-again", "{a} is known again {} s after it was of no use", (now - from) / SEC + 3);
        }
        self.recent.push_back((now, tried.clone()));
        while self.recent.front().is_some_and(|x| x.0 < now - 10 * SEC) && self.recent.len() > 2 {
            self.recent.pop_front();
        }
        // What it tells others.
        let gave: Vec<_> = self.hub.borrow_mut().gave.drain(..).collect();
        for g in gave {
            for a in g {
                ensure!(self.recent.iter().any(|(_, t)| t.contains(&a)) || self.hub.borrow().met.contains(&a), "told-untried", "the node tells of {a}, which it has not tried");
                self.ctx.probe("told_others");
            }
        }
        self.tried.retain(|a, _| tried.contains(a));
        for a in tried {
            self.tried.entry(a).or_insert(now);
        }
        self.new = new;
        Ok(())
    }

    /// Whoever calls finds a place while there is one.
    fn doors(&mut self) -> Res {
        for p in self.peers.iter().filter(|p| p.addr != self.friend) {
            for l in p.lines.borrow().iter().filter(|l| !l.borrow().called) {
                simrt::on_node(p.id, || hang_up(l));
            }
        }
        self.ms(3000)?;
        let mut taken: Vec<[u8; 4]> = self.sybil.iter().map(|r| get_range(&self.friend, *r)).collect();
        let mut guests = vec![];
        for p in &self.peers {
            let r = self.sybil.map(|r| get_range(&p.addr, r));
            if guests.len() + 1 < self.in_limit && p.addr != self.friend && r.is_none_or(|r| !taken.contains(&r)) {
                taken.extend(r);
                guests.push(p.addr);
                p.call(&self.ctx, &self.hub, self.w.nodes[0].addr, Good, None);
            }
        }
        self.ms(4000)?;
        let s = self.list("peers")?;
        for a in guests.iter().chain([&self.friend]) {
            ensure!(s.iter().any(|x| x.0.ip() == a.ip() && x.1 == "inbound"), "turned-away", "{a} calls and finds no place: {s:?}, {} allowed", self.in_limit);
            self.ctx.probe("let_in");
        }
        Ok(())
    }

    fn restart(&mut self, storage: i64) -> Res {
        let w = &mut self.w;
        w.crash(0, 0);
        for p in &self.peers {
            for l in p.lines.borrow().iter() {
                simrt::on_node(p.id, || hang_up(l));
            }
        }
        self.ctx.fault("restart");
        let now = simrt::now();
        // An address that is being tried again is not written down.
        let since = now - (2 * storage + 4) * SEC;
        let retried = |a: &SocketAddr| self.peers.iter().any(|p| p.addr == *a && p.lines.borrow().iter().any(|l| l.borrow().called && l.borrow().opened > since));
        let keep: Vec<SocketAddr> = self.tried.iter().filter(|(a, t)| **t < since && !retried(a)).map(|x| *x.0).collect();
        // Whoever was iced and not written down may be called again.
        self.iced.retain(|_, (from, _)| now - *from > (2 * storage + 4) * SEC);
        let down = self.ctx.below(20) as i64;
        self.w.run_ns(down * SEC)?;
        self.hub.borrow_mut().boot += 1;
        self.w.boot(0)?;
        self.w.run_ns(SEC / 10)?;
        let k = self.list("knownPeers")?;
        for a in &keep {
            self.ctx.probe("remembered");
            ensure!(k.iter().any(|x| x.0 == *a && x.1 == "tried"), "forgotten", "{a} was a tried peer for long before the restart and is forgotten");
        }
        self.new = k.iter().map(|x| x.0).collect();
        ev!(self.ctx, "restarted, {} remembered", keep.len());
        Ok(())
    }
}

fn get_range(a: &SocketAddr, r: u8) -> [u8; 4] {
    match a.ip() {
        IpAddr::V4(v) if r == 0 => { let _ = v; [0; 4] }
        IpAddr::V4(v) => (u32::from(v) >> (32 - u32::from(r.min(32))) << (32 - u32::from(r.min(32)))).to_be_bytes(),
        _ => [0; 4],
    }
}

pub fn n01(ctx: &Ctx) -> Res {
    let out_limit = 1 + ctx.idx(4);
    let in_limit = 2 + ctx.idx(5);
    let sybil = if ctx.chance(3, 4) { Some(*ctx.pick(&[18u8, 16, 24, 18])) } else { None };
    let ice = *ctx.pick(&[100i64, 200, 400]);
    let melt = 5 + ctx.below(30) as i64;
    let feeler = 1 + ctx.below(6);
    let storage = 2 + ctx.below(20) as i64;
    let update = *ctx.pick(&[5i64, 60, 300]);
    let n = 6 + ctx.idx(9);
    // A few of them are neighbours.
    let addrs: Vec<SocketAddr> = {
        let mut v: Vec<SocketAddr> = vec![];
        while v.len() < n {
            let ip = match ctx.below(4) {
                0 if !v.is_empty() => {
                    let IpAddr::V4(o) = ctx.pick(&v).ip() else { unreachable!() };
                    let o = o.octets();
                    match ctx.below(3) {
                        0 => [o[0], o[1], o[2], o[3] ^ (1 + ctx.below(200) as u8)],
                        1 => [o[0], o[1], o[2] ^ (1 << ctx.below(8)), o[3]],
                        _ => [o[0], o[1] ^ 1, o[2], o[3]],
                    }
                }
                _ => [20 + ctx.below(90) as u8, ctx.below(256) as u8, ctx.below(256) as u8, 1 + ctx.below(250) as u8],
            };
            let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::from(ip)), PORT);
            if !v.contains(&a) {
                v.push(a);
            }
        }
        v
    };
    let known: Vec<SocketAddr> = addrs.iter().copied().filter(|_| ctx.chance(1, 2)).chain([addrs[0]]).collect();
    let k2 = known.clone();
    let w = World::new(
        ctx,
        Opts {
            nodes: 1,
            tweak: Box::new(move |_, c| {
                let c = &mut c.connections;
                c.outbound_limit = out_limit as u16;
                c.inbound_limit = in_limit as u16;
                c.reject_sybil_inbounds = sybil.is_some();
                c.reject_sybil_inbounds_range_limit = sybil.unwrap_or(18);
                c.bucketing_ice_period = Duration::from_secs(ice as u64);
                c.check_melted_peers_period = Duration::from_secs(melt as u64);
                c.feeler_peers_period = Duration::from_secs(feeler);
                c.storage_peers_period = Duration::from_secs(storage as u64);
                c.discovery_peers_period = Duration::from_secs(15);
                c.bootstrap_peers_period = Duration::from_secs(2);
                c.handshake_timeout = Duration::from_secs(5);
                c.handshake_max_ts_diff = MAX_DRIFT;
                c.bucketing_update_period = update;
                c.known_peers = k2.iter().copied().collect();
                let _ = c.public_addr.take();
            }),
            ..Opts::default()
        },
    );
    let hub: Hub = Rc::new(RefCell::new(Shared {
        truth: LastBeacon { highest_block_checkpoint: Default::default(), highest_superblock_checkpoint: Default::default() },
        gave: vec![],
        told: known.iter().copied().collect(),
        met: BTreeSet::new(),
        bad: vec![],
        boot: 1,
        magic: w.magic,
    }));
    let friend: SocketAddr = "9.9.9.9:21337".parse().unwrap();
    let mut peers: Vec<Peer> = addrs
        .iter()
        .chain([&friend])
        .map(|a| {
            let id = simrt::add_node();
            simrt::net::set_ip(id, a.ip());
            Peer { id, addr: *a, kind: Rc::new(Cell::new(Good)), tells: Rc::default(), lines: Rc::default(), listening: false }
        })
        .collect();
    let pick = |ctx: &Ctx| {
        *ctx.pick(&[
            Good, Good, Good, Good, Pushy, Babbler, Fickle, Silent, WrongMagic, Drifted(MAX_DRIFT + 4), Drifted(-MAX_DRIFT - 4), Drifted(i64::from(i32::MAX)),
            Fork, Future, NoVerack, NoVersion, Garbage, Closes,
        ])
    };
    for p in peers.iter_mut().take(n) {
        if ctx.chance(5, 6) {
            p.listen(ctx, &hub);
        }
        p.kind.set(pick(ctx));
        let mut t: Vec<SocketAddr> = addrs.iter().copied().filter(|_| ctx.chance(1, 3)).collect();
        match ctx.below(6) {
            0 => t.push("10.1.0.1:21337".parse().unwrap()),
            1 => t.push("0.0.0.0:21337".parse().unwrap()),
            2 => t.push("[2001:db8::7]:21337".parse().unwrap()),
            _ => {}
        }
        *p.tells.borrow_mut() = t;
    }
    // One of them announces a whole range.
    if ctx.chance(1, 3) {
        ctx.probe("flood");
        let t: Vec<SocketAddr> = (0..ctx.range(100, 800)).map(|k| SocketAddr::new(IpAddr::V4(Ipv4Addr::new(198, 18, (k >> 8) as u8, k as u8)), PORT)).collect();
        peers[0].tells.borrow_mut().extend(t);
    }
    let mut t = Town {
        w,
        ctx: ctx.clone(),
        hub: hub.clone(),
        peers,
        out_limit,
        in_limit,
        sybil,
        ice,
        melt,
        tried: BTreeMap::new(),
        new: BTreeSet::new(),
        recent: VecDeque::new(),
        iced: BTreeMap::new(),
        friend,
    };
    ev!(ctx, "out {out_limit} in {in_limit} sybil {sybil:?} ice {ice} melt {melt} feeler {feeler} storage {storage} known {}", known.len());
    t.w.boot(0)?;
    t.ms(300)?;
    for _ in 0..ctx.range(20, 60) {
        ctx.phase();
        let i = ctx.idx(n);
        let node = t.w.nodes[0].addr;
        match ctx.below(12) {
            0..=3 => {
                // Some call at the same moment.
                let m = if ctx.chance(1, 3) { 1 + ctx.idx(4) } else { 1 };
                for k in 0..m {
                    let near: Vec<usize> = (0..n).filter(|j| get_range(&t.peers[*j].addr, 16) == get_range(&t.peers[i].addr, 16)).collect();
                    let p = &t.peers[if k == 0 { i } else if ctx.chance(2, 3) { *ctx.pick(&near) } else { ctx.idx(n) }];
                    let kind = if ctx.chance(2, 3) { Good } else { pick(ctx) };
                    let sender = match ctx.below(6) {
                        0 => None,
                        1 => Some("0.0.0.0:0".parse().unwrap()),
                        2 => Some(node),
                        _ => Some(p.addr),
                    };
                    ctx.op("call");
                    ev!(ctx, "{} calls, {kind:?}", p.addr);
                    p.call(ctx, &t.hub, node, kind, sender);
                }
            }
            4 | 5 => {
                // Somebody hangs up, or misbehaves.
                let p = &t.peers[i];
                let open: Vec<LineRef> = p.lines.borrow().iter().filter(|l| l.borrow().closed.is_none()).cloned().collect();
                if let Some(l) = open.first() {
                    let l = l.clone();
                    let ok = { let l = l.borrow(); l.greeted && l.acked && l.verack && l.offended.is_none() };
                    let magic = t.w.magic;
                    match ctx.below(4) {
                        0 => {
                            // It may not be known yet that it is of no use.
                            let (a, now) = (p.addr, simrt::now());
                            hub.borrow_mut().bad.retain(|x| x.0 != a);
                            t.iced.retain(|x, (from, _)| *x != a || *from <= now);
                            simrt::on_node(p.id, || hang_up(&l))
                        }
                        1 if ok => {
                            // The answers come, one for each question.
                            for _ in 0..1 + ctx.idx(3) {
                                l.borrow_mut().asked += 1;
                                simrt::on_node(p.id, || say(&l, pack(magic, Command::GetPeers(GetPeers))));
                            }
                        }
                        2 if ok && !l.borrow().called => {
                            ctx.fault("unwanted addresses");
                            l.borrow_mut().offended = Some(simrt::now() + SEC);
                            simrt::on_node(p.id, || say(&l, pack(magic, Message::build_peers(magic, &[p.addr]).kind)));
                        }
                        _ => {}
                    }
                }
            }
            6 => {
                let p = &mut t.peers[i];
                p.kind.set(pick(ctx));
                p.listen(ctx, &hub);
                ev!(ctx, "{} is {:?}", p.addr, p.kind.get());
            }
            7 => {
                let mut a: Vec<SocketAddr> = vec![t.peers[i].addr];
                if ctx.chance(1, 4) {
                    a.push(node);
                }
                ctx.op("add");
                hub.borrow_mut().told.extend(a.iter().copied());
                t.iced.remove(&a[0]);
                let v = t.w.rpc(0, "addPeers", serde_json::json!(a))?;
                ensure!(v["result"] == true, "add-refused", "addPeers answers {v}");
                let k = t.list("knownPeers")?;
                ensure!(k.iter().any(|x| x.0 == a[0]), "not-added", "{} is not known right after its owner added it", a[0]);
                t.new = k.iter().map(|x| x.0).collect();
            }
            8 if ctx.chance(1, 3) => t.restart(storage)?,
            9 => {
                ctx.fault("slow link");
                let id = t.peers[i].id;
                let mut l = simrt::net::link(id, t.w.nodes[0].id);
                l.max_ns = l.min_ns + (ctx.below(1400) as i64 + 2) * SEC / 1000;
                simrt::net::set_link(id, t.w.nodes[0].id, l);
                simrt::net::set_link(t.w.nodes[0].id, id, l);
            }
            _ => {}
        }
        for _ in 0..1 + ctx.idx(8) {
            t.ms(100 + ctx.below(1500) as i64)?;
        }
        if ctx.chance(1, 3) {
            // Questions have been answered by now.
            t.ms(4000)?;
            for p in &t.peers {
                for l in p.lines.borrow().iter() {
                    let l = l.borrow();
                    if l.closed.is_none() && l.offended.is_none() {
                        ctx.probe_if(l.asked > 0, "asked");
                        ensure!(l.answered == l.asked, "unanswered", "{} asked {} times for addresses and has {} answers", p.addr, l.asked, l.answered);
                    }
                }
            }
        }
    }
    // They all behave; whom the node shunned it gives another chance.
    ev!(ctx, "calm");
    let now = simrt::now();
    hub.borrow_mut().bad.clear();
    t.iced.retain(|_, (from, _)| *from <= now);
    let before = now - 12 * SEC;
    let just_called = |a: &SocketAddr| t.peers.iter().any(|p| p.addr == *a && p.lines.borrow().iter().any(|l| l.borrow().called && l.borrow().opened > before));
    let shunned: Vec<SocketAddr> = t.iced.keys().copied().filter(|a| !just_called(a)).collect();
    for p in &mut t.peers {
        p.kind.set(Good);
        p.listen(ctx, &hub);
        let (id, v) = (p.id, t.w.nodes[0].id);
        simrt::net::set_link(id, v, Default::default());
        simrt::net::set_link(v, id, Default::default());
        for l in p.lines.borrow().iter() {
            simrt::on_node(id, || hang_up(l));
        }
        p.tells.borrow_mut().clear();
    }
    // Where an address goes depends on a secret of the node.
    let book: Option<Book> = t.w.nodes[0].disk.contents().iter().find_map(|(k, v)| {
        k.get(8..).is_some_and(|k| k.starts_with(b"peers-")).then(|| bincode::deserialize(v).expect("peers"))
    });
    let started = simrt::now();
    let mut back = BTreeSet::new();
    while simrt::now() - started < (t.ice + t.melt + 15) * SEC && back.len() < shunned.len() {
        t.ms(1000)?;
        for a in &shunned {
            let called = t.peers.iter().any(|p| p.addr == *a && p.lines.borrow().iter().any(|l| l.borrow().called && l.borrow().opened > started));
            if called || t.new.contains(a) || t.tried.contains_key(a) {
                back.insert(*a);
            }
        }
    }
    if let Some(book) = book {
        let told = hub.borrow().told.clone();
        for a in shunned.iter().filter(|a| !back.contains(a)) {
            let i = book.new_bucket_index(a, a);
            let displaced = told.iter().filter(|b| *b != a).any(|b| book.tried_bucket_index(b) == book.tried_bucket_index(a) || told.iter().any(|s| book.new_bucket_index(b, s) == i));
            ensure!(displaced, "never-melts", "{a} is shunned for ever");
        }
        ctx.probe_if(!shunned.is_empty(), "melted");
    }
    let all: Vec<SocketAddr> = t.peers.iter().map(|p| p.addr).filter(|a| *a != t.friend).collect();
    hub.borrow_mut().told.extend(all.iter().copied());
    t.iced.clear();
    for s in 0..200 {
        // Two addresses may be in one another's way.
        if s % 30 == 0 {
            t.w.rpc(0, "addPeers", serde_json::json!(all))?;
            let k = t.list("knownPeers")?;
            t.new = k.iter().map(|x| x.0).collect();
        }
        t.ms(1000)?;
        if t.list("peers")?.iter().filter(|x| x.1 == "outbound").count() == t.out_limit {
            ctx.probe("connected");
            return t.doors();
        }
    }
    Err(Fail::new("lonely", format!("200 s after everybody is well the node has {:?}, and knows {:?}", t.list("peers")?, t.list("knownPeers")?)))
}
