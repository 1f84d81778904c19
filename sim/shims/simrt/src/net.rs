//! The simulated network: streams that deliver their bytes in order, late, in pieces, or break.
use crate::{NodeId, at_time, choose, now};
use bytes::BytesMut;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io;
use std::net::SocketAddr;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug)]
pub struct LinkCfg {
    pub min_ns: i64,
    pub max_ns: i64,
    /// One write in this many is delayed by up to `spike_ns` more (0: never).
    pub spike_odds: u64,
    pub spike_ns: i64,
    /// One write in this many arrives in pieces (0: never).
    pub split_odds: u64,
    pub blocked: bool,
}
impl Default for LinkCfg {
    fn default() -> Self {
        LinkCfg {
            min_ns: 1_000_000,
            max_ns: 40_000_000,
            spike_odds: 0,
            spike_ns: 0,
            split_odds: 0,
            blocked: false,
        }
    }
}

#[derive(Default)]
struct Pipe {
    from: NodeId,
    to: NodeId,
    ready: BytesMut,
    /// Arrived while the link was cut.
    held: VecDeque<Segment>,
    eof: bool,
    reset: bool,
    reader_gone: bool,
    writer_gone: bool,
    last_at: i64,
    waker: Option<Waker>,
    writer_waker: Option<Waker>,
    bytes: u64,
}

enum Segment {
    Data(Vec<u8>),
    Fin,
    Reset,
}

struct Listener {
    node: NodeId,
    queue: VecDeque<Stream>,
    waker: Option<Waker>,
}

#[derive(Default)]
struct Net {
    listeners: HashMap<SocketAddr, Listener>,
    pipes: BTreeMap<u64, Pipe>,
    next: u64,
    port: u16,
    links: HashMap<(NodeId, NodeId), LinkCfg>,
    default: LinkCfg,
    ips: HashMap<NodeId, std::net::IpAddr>,
    pub stats: Stats,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub connects: u64,
    pub refused: u64,
    pub lost_connects: u64,
    pub segments: u64,
    pub bytes: u64,
    pub held: u64,
    pub resets: u64,
    pub spikes: u64,
    pub splits: u64,
}

thread_local! {
    static NET: RefCell<Option<Net>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    NET.with(|n| f(n.borrow_mut().as_mut().expect("no simulated network")))
}
fn try_with<R>(f: impl FnOnce(&mut Net) -> R) -> Option<R> {
    NET.try_with(|n| n.try_borrow_mut().ok().and_then(|mut n| n.as_mut().map(f)))
        .ok()
        .flatten()
}

pub fn start() {
    NET.with(|n| {
        *n.borrow_mut() = Some(Net {
            port: 30_000,
            ..Default::default()
        })
    });
}
pub fn stop() {
    let n = NET.with(|n| n.borrow_mut().take());
    drop(n);
}
pub fn stats() -> Stats {
    with(|n| n.stats)
}

pub fn set_ip(node: NodeId, ip: std::net::IpAddr) {
    with(|n| n.ips.insert(node, ip));
}
pub fn set_default(cfg: LinkCfg) {
    with(|n| n.default = cfg);
}
pub fn link(a: NodeId, b: NodeId) -> LinkCfg {
    with(|n| n.link(a, b))
}
pub fn set_link(a: NodeId, b: NodeId, cfg: LinkCfg) {
    with(|n| n.links.insert((a, b), cfg));
}
/// Cuts or heals both directions. What was sent meanwhile arrives after the healing, as retransmitted.
pub fn set_blocked(a: NodeId, b: NodeId, v: bool) {
    for (x, y) in [(a, b), (b, a)] {
        let mut l = link(x, y);
        l.blocked = v;
        set_link(x, y, l);
    }
    if !v {
        let ids: Vec<u64> = with(|n| {
            n.pipes
                .iter()
                .filter(|(_, p)| (p.from, p.to) == (a, b) || (p.from, p.to) == (b, a))
                .map(|(i, _)| *i)
                .collect()
        });
        for id in ids {
            let held = with(|n| {
                n.pipes
                    .get_mut(&id)
                    .map(|p| std::mem::take(&mut p.held))
                    .unwrap_or_default()
            });
            for s in held {
                transmit(id, s);
            }
        }
    }
}
/// Breaks every connection between the two.
pub fn reset_between(a: NodeId, b: NodeId) -> usize {
    let ids: Vec<u64> = with(|n| {
        n.pipes
            .iter()
            .filter(|(_, p)| !p.reset && ((p.from, p.to) == (a, b) || (p.from, p.to) == (b, a)))
            .map(|(i, _)| *i)
            .collect()
    });
    for id in &ids {
        fail(*id);
    }
    ids.len()
}

impl Net {
    fn link(&self, a: NodeId, b: NodeId) -> LinkCfg {
        self.links.get(&(a, b)).copied().unwrap_or(self.default)
    }
}

/// Both ends of the pipe see a reset now.
fn fail(id: u64) {
    let ws = try_with(|n| {
        n.stats.resets += 1;
        n.pipes.get_mut(&id).map(|p| {
            p.reset = true;
            p.held.clear();
            [p.waker.take(), p.writer_waker.take()]
        })
    });
    if let Some(Some(ws)) = ws {
        ws.into_iter().flatten().for_each(|w| w.wake());
    }
}

fn latency(id: u64) -> i64 {
    let cfg = with(|n| {
        n.pipes
            .get(&id)
            .map(|p| n.link(p.from, p.to))
            .unwrap_or_default()
    });
    let mut d = cfg.min_ns + choose((cfg.max_ns - cfg.min_ns).max(1) as u64) as i64;
    if cfg.spike_odds > 0 && choose(cfg.spike_odds) == 0 {
        with(|n| n.stats.spikes += 1);
        d += choose(cfg.spike_ns.max(1) as u64) as i64;
    }
    d
}

/// Puts one segment on the wire.
fn transmit(id: u64, s: Segment) {
    let d = latency(id);
    let at = with(|n| {
        n.stats.segments += 1;
        let p = n.pipes.get_mut(&id)?;
        let at = (now() + d).max(p.last_at + 1);
        p.last_at = at;
        Some(at)
    });
    if let Some(at) = at {
        at_time(at, move || arrive(id, s));
    }
}

fn arrive(id: u64, s: Segment) {
    let w = with(|n| {
        let (from, to) = n.pipes.get(&id).map(|p| (p.from, p.to))?;
        let blocked = n.link(from, to).blocked;
        let p = n.pipes.get_mut(&id)?;
        if p.reset {
            return None;
        }
        if blocked || !p.held.is_empty() {
            n.stats.held += 1;
            p.held.push_back(s);
            return None;
        }
        match s {
            Segment::Data(b) => {
                if p.reader_gone {
                    // The peer has closed its reading side: the writer learns that the hard way.
                    p.reset = true;
                    return p.writer_waker.take();
                }
                p.ready.extend_from_slice(&b);
            }
            Segment::Fin => p.eof = true,
            Segment::Reset => {
                p.reset = true;
                let w = p.writer_waker.take();
                if p.waker.is_none() {
                    return w;
                }
            }
        }
        p.waker.take()
    });
    if let Some(w) = w {
        w.wake();
    }
    sweep(id);
}

fn sweep(id: u64) {
    let p = try_with(|n| {
        if n.pipes
            .get(&id)
            .is_some_and(|p| p.reader_gone && p.writer_gone)
        {
            n.pipes.remove(&id)
        } else {
            None
        }
    });
    drop(p);
}

/// Its sockets vanish; the peers see resets once they can be reached.
pub fn node_gone(node: NodeId) {
    let (ids, listeners) = match try_with(|n| {
        let ids: Vec<u64> = n
            .pipes
            .iter()
            .filter(|(_, p)| p.from == node || p.to == node)
            .map(|(i, _)| *i)
            .collect();
        let ls: Vec<SocketAddr> = n
            .listeners
            .iter()
            .filter(|(_, l)| l.node == node)
            .map(|(a, _)| *a)
            .collect();
        (
            ids,
            ls.into_iter()
                .filter_map(|a| n.listeners.remove(&a))
                .collect::<Vec<_>>(),
        )
    }) {
        Some(x) => x,
        None => return,
    };
    drop(listeners);
    for id in ids {
        transmit(id, Segment::Reset);
    }
}

fn new_pipe(from: NodeId, to: NodeId) -> u64 {
    with(|n| {
        n.next += 1;
        n.pipes.insert(
            n.next,
            Pipe {
                from,
                to,
                ..Default::default()
            },
        );
        n.next
    })
}

/// The reading end.
pub struct ReadEnd(u64);
/// The writing end.
pub struct WriteEnd(u64);

pub struct Stream {
    pub read: ReadEnd,
    pub write: WriteEnd,
    pub local: SocketAddr,
    pub peer: SocketAddr,
}

impl ReadEnd {
    /// Some bytes, or 0 at the end.
    pub fn poll_read(
        &mut self,
        cx: &mut Context<'_>,
        to: &mut BytesMut,
        max: usize,
    ) -> Poll<io::Result<usize>> {
        with(|n| {
            let Some(p) = n.pipes.get_mut(&self.0) else {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            };
            if !p.ready.is_empty() {
                let k = p.ready.len().min(max);
                to.extend_from_slice(&p.ready.split_to(k));
                return Poll::Ready(Ok(k));
            }
            if p.reset {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if p.eof {
                return Poll::Ready(Ok(0));
            }
            p.waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
}
impl Drop for ReadEnd {
    fn drop(&mut self) {
        try_with(|n| {
            if let Some(p) = n.pipes.get_mut(&self.0) {
                p.reader_gone = true;
                p.waker = None;
            }
        });
        sweep(self.0);
    }
}
impl WriteEnd {
    pub fn write(&mut self, b: &[u8]) -> io::Result<()> {
        let cfg = with(|n| match n.pipes.get_mut(&self.0) {
            Some(p) if !p.reset => {
                p.bytes += b.len() as u64;
                n.stats.bytes += b.len() as u64;
                let (f, t) = (p.from, p.to);
                Ok(n.link(f, t))
            }
            _ => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
        })?;
        let mut rest = b;
        if cfg.split_odds > 0 && b.len() > 1 && choose(cfg.split_odds) == 0 {
            with(|n| n.stats.splits += 1);
            while rest.len() > 1 && choose(3) > 0 {
                let k = 1 + choose(rest.len() as u64 - 1) as usize;
                transmit(self.0, Segment::Data(rest[..k].to_vec()));
                rest = &rest[k..];
            }
        }
        transmit(self.0, Segment::Data(rest.to_vec()));
        Ok(())
    }
    pub fn broken(&self) -> bool {
        with(|n| n.pipes.get(&self.0).is_none_or(|p| p.reset))
    }
    /// Wakes when the connection breaks.
    pub fn watch(&mut self, cx: &mut Context<'_>) {
        with(|n| {
            if let Some(p) = n.pipes.get_mut(&self.0) {
                p.writer_waker = Some(cx.waker().clone());
            }
        })
    }
}
impl Drop for WriteEnd {
    fn drop(&mut self) {
        let fin = try_with(|n| {
            n.pipes.get_mut(&self.0).is_some_and(|p| {
                p.writer_gone = true;
                p.writer_waker = None;
                !p.reset && !p.reader_gone
            })
        });
        if fin == Some(true) && crate::active() {
            // A machine that is switched off sends nothing; see `node_gone`.
            if !crate::dying() {
                transmit(self.0, Segment::Fin);
            }
        }
        sweep(self.0);
    }
}

pub fn listen(node: NodeId, addr: SocketAddr) -> io::Result<()> {
    with(|n| {
        if n.listeners.contains_key(&addr) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        n.listeners.insert(
            addr,
            Listener {
                node,
                queue: VecDeque::new(),
                waker: None,
            },
        );
        Ok(())
    })
}
pub fn unlisten(addr: SocketAddr) {
    let l = try_with(|n| n.listeners.remove(&addr));
    drop(l);
}
pub fn poll_accept(addr: SocketAddr, cx: &mut Context<'_>) -> Poll<io::Result<Stream>> {
    with(|n| match n.listeners.get_mut(&addr) {
        None => Poll::Pending,
        Some(l) => match l.queue.pop_front() {
            Some(s) => Poll::Ready(Ok(s)),
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        },
    })
}

/// Connects from `node`; pending for good if the SYN is lost.
pub async fn connect(node: NodeId, addr: SocketAddr) -> io::Result<Stream> {
    let target = with(|n| {
        n.stats.connects += 1;
        n.listeners.get(&addr).map(|l| l.node)
    });
    let rtt = {
        let cfg = target
            .map(|t| link(node, t))
            .unwrap_or_else(|| with(|n| n.default));
        2 * (cfg.min_ns + choose((cfg.max_ns - cfg.min_ns).max(1) as u64) as i64)
    };
    crate::until(now() + rtt).await;
    let Some(target) = target else {
        with(|n| n.stats.refused += 1);
        return Err(io::ErrorKind::ConnectionRefused.into());
    };
    if link(node, target).blocked || link(target, node).blocked {
        with(|n| n.stats.lost_connects += 1);
        std::future::pending::<()>().await;
    }
    if !with(|n| n.listeners.contains_key(&addr)) {
        with(|n| n.stats.refused += 1);
        return Err(io::ErrorKind::ConnectionRefused.into());
    }
    let (out, back) = (new_pipe(node, target), new_pipe(target, node));
    let local = with(|n| {
        n.port = if n.port >= 60_000 { 30_000 } else { n.port + 1 };
        let ip = n
            .ips
            .get(&node)
            .copied()
            .unwrap_or_else(|| std::net::Ipv4Addr::new(10, 0, 0, node as u8 + 1).into());
        SocketAddr::new(ip, n.port)
    });
    let theirs = Stream {
        read: ReadEnd(out),
        write: WriteEnd(back),
        local: addr,
        peer: local,
    };
    let w = with(|n| {
        let l = n.listeners.get_mut(&addr).unwrap();
        l.queue.push_back(theirs);
        l.waker.take()
    });
    if let Some(w) = w {
        w.wake();
    }
    Ok(Stream {
        read: ReadEnd(back),
        write: WriteEnd(out),
        local,
        peer: addr,
    })
}
