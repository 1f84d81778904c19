//! One wallet process, and the node it talks to, which the harness plays.

use crate::chain::*;
use async_jsonrpc_client::{Conn, Error as NetError, ErrorKind, set_server};
use jsonrpc_core::Params as RpcParams;
use jsonrpc_pubsub::Session;
use rocksdb::Disk;
use serde_json::{Value, json};
use simkit::{Ctx, Fail, Res, ensure, ev};
use simrt::{NodeId, Step};
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    path::PathBuf,
    rc::Rc,
    sync::{
        Arc,
        atomic::{AtomicU64, Ordering},
    },
    time::Duration,
};

use actix::prelude::*;
use simstd::sync::{Mutex, RwLock};
use witnet_config::config::{Config, PartialConfig};
use witnet_crypto::key::KeyPath;
use witnet_data_structures::{
    chain::{CheckpointBeacon, Environment, Epoch, EpochConstants, Hash, InventoryItem, PublicKey, PublicKeyHash, StateMachine, SuperBlock, SyncStatus},
    clear_protocol_info,
    proto::versioning::{ProtocolInfo, ProtocolVersion},
    transaction::Transaction,
};
use witnet_net::client::tcp::{JsonRpcClient, jsonrpc};
use witnet_wallet::{account, actors, actors::app, crypto, params, types};

pub const PHRASES: [&str; 3] = [
    "day voice lake monkey suit bread occur own cattle visit object ordinary",
    "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
    "legal winner thank year wave sausage worth useful legal winner thank yellow",
];
pub const BOOTSTRAP: u8 = 0x77;

type Known = (Vec<[Vec<PublicKeyHash>; 2]>, Vec<PublicKeyHash>);
static KEYRING: std::sync::OnceLock<Known> = std::sync::OnceLock::new();
/// The addresses behind every phrase, and those of strangers. To be called before the first run.
pub fn keyring() -> &'static Known {
    KEYRING.get_or_init(|| {
        let c = Config::from_partial(&PartialConfig { environment: Environment::Testnet, ..PartialConfig::default() });
        let own = PHRASES
            .iter()
            .map(|p| {
                let m = witnet_crypto::mnemonic::Mnemonic::from_phrase((*p).into()).expect("phrase");
                let mk = crypto::gen_master_key(c.wallet.seed_password.as_ref(), c.wallet.master_key_salt.as_ref(), &types::SeedSource::Mnemonics(m)).expect("key");
                let a = account::gen_account(0, &mk).expect("account");
                [&a.external, &a.internal].map(|k| {
                    (0..KEYS)
                        .map(|i| {
                            let k = k.derive(&KeyPath::default().index(i)).expect("child");
                            let pk: PublicKey = witnet_crypto::key::ExtendedPK::from_secret_key(&k).key.into();
                            PublicKeyHash::from_public_key(&pk)
                        })
                        .collect()
                })
            })
            .collect();
        let strangers = (0..5u8).map(|i| PublicKeyHash::from_bytes(&[0xc0 + i; 20]).expect("hash")).collect();
        (own, strangers)
    })
}

pub struct Opts {
    pub phrase: usize,
    pub workers: usize,
    pub v2: Option<Epoch>,
    pub superblock: Epoch,
    pub history: u32,
    pub gap: u16,
    pub batch: u32,
    pub own_spends: bool,
    pub unconfirmed: bool,
    pub pending_timeout: u64,
    pub session_secs: u64,
    /// The most that a value transfer may weigh; a data request may weigh twice as much.
    pub max_weight: Option<u32>,
    /// A worker thread gives way at one in this many of its locks and database accesses (0: at none).
    pub preempt: u64,
}

/// The node.
pub struct Server {
    pub ctx: Ctx,
    pub chain: Chain,
    pub superblock: Epoch,
    pub faults: bool,
    pub up: bool,
    pub synced: bool,
    /// How much of the chain it shows while it is not synchronized.
    pub visible: usize,
    subs: Vec<(Arc<Conn>, String, String)>,
    next: u64,
    busy: HashMap<u64, i64>,
    pub sent: Vec<Transaction>,
    pub conns: Vec<Arc<Conn>>,
    /// Confirmed when the last superblock was notified.
    pub told: usize,
}

fn rpc_error(code: i64, m: &str) -> NetError {
    NetError::kind(ErrorKind::Rpc(jsonrpc_core::Error { code: jsonrpc_core::ErrorCode::ServerError(code), message: m.to_string(), data: None }))
}

impl Server {
    pub fn main(&self) -> &[Rc<Rec>] {
        let n = if self.synced { self.chain.main.len() } else { self.visible.clamp(1, self.chain.main.len()) };
        &self.chain.main[..n]
    }
    fn answer(&mut self, conn: &Arc<Conn>, method: &str, p: Value) -> Result<Value, NetError> {
        let main = self.main();
        match method {
            "syncStatus" => {
                let top = main.last().expect("genesis");
                let s = SyncStatus {
                    chain_beacon: CheckpointBeacon { checkpoint: top.epoch, hash_prev_block: top.hash },
                    current_epoch: Some(top.epoch),
                    node_state: if self.synced { StateMachine::Synced } else { StateMachine::Synchronizing },
                };
                Ok(serde_json::to_value(s).expect("status"))
            }
            "protocol" => Ok(serde_json::to_value(&self.chain.protocol).expect("protocol")),
            "witnet_subscribe" => {
                let topic = p[0].as_str().unwrap_or_default().to_string();
                self.next += 1;
                let id = format!("sub-{}", self.next);
                self.subs.push((conn.clone(), topic, id.clone()));
                Ok(json!(id))
            }
            "getBlockChain" => {
                let (e, limit) = (p["epoch"].as_i64().unwrap_or(0), p["limit"].as_i64().unwrap_or(0));
                let list: Vec<_> = if limit < 0 {
                    let n = limit.unsigned_abs() as usize;
                    main[main.len().saturating_sub(n)..].to_vec()
                } else {
                    main.iter().filter(|r| i64::from(r.epoch) >= e).take(limit as usize).cloned().collect()
                };
                Ok(Value::Array(list.iter().map(|r| json!([r.epoch, r.hash.to_string()])).collect()))
            }
            "getBlock" => {
                let id = p[0].as_str().unwrap_or_default();
                let Some(r) = self.chain.recs.values().find(|r| r.hash.to_string() == id) else {
                    return Err(rpc_error(-32603, "ItemNotFound"));
                };
                let at = self.main().iter().position(|x| x.hash == r.hash);
                let mut j = r.json.clone();
                j["confirmed"] = json!(at.is_some_and(|i| i < self.chain.confirmed));
                Ok(j)
            }
            "getTransaction" => match self.chain.txs.get(p.as_str().unwrap_or_default()) {
                Some((t, b)) => Ok(json!({"transaction": t, "blockHash": b.to_string(), "weight": 1, "blockEpoch": 0, "confirmed": true})),
                None => Err(rpc_error(-32603, "ItemNotFound")),
            },
            "dataRequestReport" => match self.chain.reports.get(p.as_str().unwrap_or_default()) {
                Some(i) => Ok(serde_json::to_value(i).expect("report")),
                None => Err(rpc_error(-32603, "ItemNotFound")),
            },
            "inventory" => match serde_json::from_value::<InventoryItem>(p) {
                Ok(InventoryItem::Transaction(t)) => {
                    self.sent.push(t.clone());
                    self.chain.mempool.push(t);
                    Ok(json!(true))
                }
                other => Err(rpc_error(-32602, &format!("{other:?}"))),
            },
            _ => Err(rpc_error(-32601, "Method not found")),
        }
    }

    fn notify(&mut self, topic: &str, v: Value) {
        let ctx = self.ctx.clone();
        let mut late = vec![];
        self.subs.retain(|s| !s.0.broken());
        for (conn, t, id) in &self.subs {
            if t != topic {
                continue;
            }
            if self.faults && ctx.chance(1, 30) {
                ctx.fault("notification lost");
                conn.break_off();
                continue;
            }
            let wait = if self.faults && ctx.chance(1, 15) {
                ctx.fault("notification late");
                ctx.range(1, 60) as i64 * SEC
            } else {
                ctx.range(0, 50) as i64 * SEC / 1000
            };
            late.push((conn.clone(), id.clone(), wait));
        }
        for (conn, id, wait) in late {
            // A connection keeps the order.
            let b = self.busy.entry(conn.id).or_default();
            *b = (*b + 1).max(simrt::now() + wait);
            let v = v.clone();
            simrt::at_time(*b, move || {
                conn.notify(&id, v);
            });
        }
    }

    pub fn break_all(&mut self) {
        self.subs.clear();
        for c in std::mem::take(&mut self.conns) {
            c.break_off();
        }
    }

    /// The chain moves on.
    pub fn tick(&mut self, e: Epoch) {
        let ctx = self.ctx.clone();
        let sp = self.superblock;
        if e % sp == 0 && e >= 2 * sp {
            if self.faults && ctx.chance(1, 6) {
                ctx.fault("no superblock");
            } else {
                let n = self.chain.main.iter().filter(|r| r.epoch < e - sp).count();
                if n > self.chain.confirmed {
                    self.chain.confirmed = n;
                }
                let list: Vec<String> = self.chain.main[self.told..self.chain.confirmed].iter().map(|r| r.hash.to_string()).collect();
                self.told = self.chain.confirmed;
                ev!(ctx, "superblock {}: {} blocks", e / sp, list.len());
                if self.up && self.synced && !list.is_empty() {
                    let mut s = SuperBlock::default();
                    s.index = e / sp;
                    self.notify("superblocks", json!({"superblock": s, "consolidated_block_hashes": list}));
                }
            }
        }
        let free = self.chain.main.len() - self.chain.confirmed.max(1);
        if self.faults && free > 0 && ctx.chance(1, 10) {
            let n = 1 + ctx.skewed(free as u64 - 1) as usize;
            ctx.fault("reorganization");
            ctx.probe("reorganized");
            let at = self.chain.main.len() - n;
            let gone = self.chain.main.split_off(at);
            ev!(ctx, "reorganization of {n} blocks from {}", gone[0].epoch);
            for t in self.sent.clone() {
                if !self.chain.mempool.contains(&t) {
                    self.chain.mempool.push(t);
                }
            }
            let (from, told) = (gone[0].epoch, ctx.chance(1, 2));
            for x in from..e {
                if ctx.chance(2, 3) {
                    self.grow(x, told);
                }
            }
        }
        if !self.faults || ctx.chance(9, 10) {
            self.grow(e, true);
        }
    }
    fn grow(&mut self, e: Epoch, tell: bool) {
        let tip = self.chain.tip().clone();
        let done = self.on_chain();
        let pool = std::mem::take(&mut self.chain.mempool);
        self.chain.mempool = pool.into_iter().filter(|t| !done.contains(&self.chain.hash(t, e))).collect();
        let r = self.chain.forge(Some(tip), e, false);
        ev!(self.ctx, "block {} of epoch {e} with {} transactions", &r.hash.to_string()[..8], self.chain.all(&r.block).len());
        self.chain.main.push(r.clone());
        if tell && self.up && self.synced {
            self.notify("blocks", r.json.clone());
        }
    }
    fn on_chain(&self) -> HashSet<Hash> {
        let mut s = HashSet::new();
        for r in &self.chain.main {
            for t in self.chain.all(&r.block) {
                s.insert(self.chain.hash(&t, r.epoch));
            }
        }
        s
    }
}

pub struct World {
    pub ctx: Ctx,
    pub o: Opts,
    pub server: Rc<RefCell<Server>>,
    pub constants: EpochConstants,
    pub node: NodeId,
    pub disk: Disk,
    pub up: bool,
    boots: u32,
    path: PathBuf,
    pub wallet_id: String,
    pub session: Option<String>,
    pub client: Arc<Session>,
    pub epoch: Epoch,
    start: (i64, i64),
    /// What the wallet said last: (last_sync epoch, last_sync hash)
    pub said: Option<(Epoch, String)>,
    pub single: bool,
    /// The owner has sent something; a resync since then may have forgotten where its change goes.
    pub spent: bool,
    pub forgot: bool,
    pub locals: bool,
}
static WORLDS: AtomicU64 = AtomicU64::new(0);

/// How a call ended.
pub type Reply = Result<Value, jsonrpc_core::Error>;

impl World {
    pub fn new(ctx: &Ctx, o: Opts) -> World {
        witnet_data_structures::set_environment(Environment::Testnet);
        clear_protocol_info();
        let mut protocol = ProtocolInfo::default();
        protocol.register(0, ProtocolVersion::V1_7, 45);
        if let Some(e) = o.v2 {
            protocol.register(e, ProtocolVersion::V2_0, 20);
            protocol.current_version = ProtocolVersion::V2_0;
        } else {
            protocol.current_version = ProtocolVersion::V1_7;
        }
        let constants = EpochConstants {
            checkpoint_zero_timestamp: ZERO,
            checkpoints_period: 45,
            checkpoint_zero_timestamp_wit2: o.v2.map(|e| ZERO + 45 * i64::from(e)).unwrap_or(i64::MAX),
            checkpoints_period_wit2: 20,
        };
        let (own, strangers) = keyring();
        let mine = &own[o.phrase];
        let mut path = HashMap::new();
        for kc in 0..2 {
            for (i, p) in mine[kc].iter().enumerate() {
                path.insert(*p, (kc as u32, i as u32));
            }
        }
        let mut chain = Chain {
            ctx: ctx.clone(),
            keys: Keys { path, chains: mine.clone() },
            foreign: strangers.clone(),
            protocol,
            constants,
            bootstrap: Hash::from(vec![BOOTSTRAP; 32]),
            gap: u32::from(o.gap),
            recs: HashMap::new(),
            main: vec![],
            confirmed: 0,
            mempool: vec![],
            txs: HashMap::new(),
            reports: HashMap::new(),
            birth: None,
            payable: vec![],
            own_spends: o.own_spends,
            salt: 0,
        };
        // The past: any address within the gap may have been paid.
        let mut e = 0;
        for k in 0..=o.history {
            chain.payable = vec![];
            if o.own_spends {
                let next = chain.main.last().map_or([0, 0], |r| r.view.next);
                for (kc, n) in next.into_iter().enumerate() {
                    let top = (n + u32::from(o.gap)).min(KEYS - 12);
                    chain.payable.extend(&mine[kc][..top as usize]);
                }
            }
            let parent = chain.main.last().cloned();
            let r = chain.forge(parent, e, false);
            chain.main.push(r);
            if k < o.history {
                e += 1 + ctx.skewed(2) as u32 * u32::from(ctx.chance(1, 6));
            }
        }
        let sp = o.superblock;
        let s = e / sp * sp;
        chain.confirmed = if s >= 2 * sp { chain.main.iter().filter(|r| r.epoch < s - sp).count() } else { 0 };
        let told = chain.confirmed;
        chain.payable = vec![];

        let real = chain.ts(e) + ctx.range(1, 15) as i64;
        simkit::simos::set_realtime_ns(real * SEC);
        simrt::start(ctx.sub_rng());
        simrt::coro::locks(o.preempt);
        let start = (simrt::now(), real);
        let path = std::env::temp_dir().join(format!("sim-wallet-{}-{}", std::process::id(), WORLDS.fetch_add(1, Ordering::Relaxed)));
        let server = Rc::new(RefCell::new(Server {
            ctx: ctx.clone(),
            chain,
            superblock: sp,
            faults: false,
            up: true,
            synced: true,
            visible: 1,
            subs: vec![],
            next: 0,
            busy: HashMap::new(),
            sent: vec![],
            conns: vec![],
            told,
        }));
        let srv = server.clone();
        set_server(Some(Rc::new(move |conn, method, p| {
            let s = srv.clone();
            let (up, kind, ctx) = {
                let mut s = s.borrow_mut();
                if !s.conns.iter().any(|c| c.id == conn.id) {
                    s.conns.retain(|c| !c.broken());
                    s.conns.push(conn.clone());
                }
                let kind = if s.faults { s.ctx.weighted(&[60, 2, 1, 2, 1, 1]) } else { 0 };
                (s.up, kind, s.ctx.clone())
            };
            Box::pin(async move {
                if !up {
                    simrt::sleep(Duration::from_millis(1)).await;
                    return Err(NetError::kind(ErrorKind::Unreachable));
                }
                let ms = match kind {
                    1 => {
                        ctx.fault("slow answer");
                        ctx.range(1000, 40_000)
                    }
                    2 => {
                        ctx.fault("no answer");
                        100_000_000
                    }
                    3 => {
                        ctx.fault("refused");
                        return Err(NetError::kind(ErrorKind::Unreachable));
                    }
                    5 => {
                        ctx.fault("error answer");
                        return Err(rpc_error(-32603, "Internal error"));
                    }
                    _ => ctx.range(0, 30),
                };
                if ms > 0 {
                    simrt::sleep(Duration::from_millis(ms as u64)).await;
                }
                let r = s.borrow_mut().answer(&conn, &method, p);
                if kind == 4 {
                    // Done, but the connection breaks before the answer gets through.
                    ctx.fault("connection broken");
                    simrt::sleep(Duration::from_millis(1)).await;
                    simrt::at_time(simrt::now(), move || conn.break_off());
                    simrt::sleep(Duration::from_secs(1000)).await;
                    return Err(NetError::kind(ErrorKind::Unreachable));
                }
                r
            })
        })));
        actix::set_worker_threads(true);
        let node = simrt::add_node();
        let disk = rocksdb::disk_at(&path);
        World {
            ctx: ctx.clone(),
            server,
            constants,
            node,
            disk,
            up: false,
            boots: 0,
            path,
            wallet_id: String::new(),
            session: None,
            client: Arc::default(),
            epoch: e,
            start,
            said: None,
            single: o.workers == 1,
            spent: false,
            forgot: false,
            locals: false,
            o,
        }
    }

    pub fn config() -> Config {
        Config::from_partial(&PartialConfig { environment: Environment::Testnet, ..PartialConfig::default() })
    }

    /// What `witnet_wallet::run` does.
    pub fn boot(&mut self) -> Res {
        assert!(!self.up);
        if self.boots > 0 {
            simrt::revive_node(self.node);
        }
        self.boots += 1;
        self.up = true;
        self.session = None;
        self.client = Arc::default();
        ev!(self.ctx, "boot");
        let (path, workers, constants) = (self.path.clone(), self.o.workers, self.constants);
        let (gap, batch, unconfirmed, timeout) = (self.o.gap, self.o.batch, self.o.unconfirmed, self.o.pending_timeout);
        let max_weight = self.o.max_weight;
        let (sp, session_secs) = (self.o.superblock, self.o.session_secs);
        let genesis = self.server.borrow().chain.main[0].hash;
        let faults = std::mem::replace(&mut self.server.borrow_mut().faults, false);
        let ready = Rc::new(RefCell::new(false));
        let done = ready.clone();
        simrt::on_node(self.node, move || {
            let system = System::new();
            simrt::spawn(async move {
                let conf = Self::config();
                let db = Arc::new(::rocksdb::DB::open(&rocksdb::Options::default(), &path).expect("database"));
                let witnessing = witnet_validations::witnessing::validate_witnessing_config::<String, witnet_rad::Uri>(
                    &conf.witnessing.clone().into_config(),
                )
                .expect("witnessing configuration");
                let subs = Arc::new(Mutex::new(Default::default()));
                let urls = vec!["127.0.0.1:21338".to_string()];
                let client = JsonRpcClient::start_with_subscriptions(urls, subs.clone()).map_err(|_| ()).expect("client");
                let client = Arc::new(app::NodeClient { actor: client });
                client.valid_connection().await;
                let req = jsonrpc::Request::method("protocol").timeout(Duration::from_secs(5)).params(json!(null)).expect("params");
                let info = client.actor.send(req).await.expect("client").expect("protocol information");
                let protocol_info: ProtocolInfo = serde_json::from_value(info).expect("protocol information");
                let bootstrap = Hash::from(vec![BOOTSTRAP; 32]);
                let mut consensus = conf.consensus_constants.clone();
                consensus.superblock_period = sp as u16;
                consensus.genesis_hash = genesis;
                consensus.bootstrap_hash = bootstrap;
                if let Some(max) = max_weight {
                    consensus.max_vt_weight = max;
                    consensus.max_dr_weight = max * 2;
                }
                let p = params::Params {
                    testnet: true,
                    seed_password: conf.wallet.seed_password.clone(),
                    master_key_salt: conf.wallet.master_key_salt.clone(),
                    id_hash_iterations: 2,
                    id_hash_function: conf.wallet.id_hash_function,
                    db_hash_iterations: 2,
                    db_iv_length: conf.wallet.db_encrypt_iv_length,
                    db_salt_length: conf.wallet.db_encrypt_salt_length,
                    epoch_constants: constants,
                    node_sync_batch_size: batch,
                    genesis_hash: genesis,
                    genesis_prev_hash: bootstrap,
                    sync_address_batch_length: gap,
                    max_vt_weight: consensus.max_vt_weight,
                    max_dr_weight: consensus.max_dr_weight,
                    consensus_constants: consensus.clone(),
                    use_unconfirmed_utxos: unconfirmed,
                    pending_transactions_timeout_seconds: timeout,
                    witnessing,
                    protocol_info: protocol_info.clone(),
                };
                let node_params = params::NodeParams {
                    client: client.clone(),
                    last_beacon: Arc::new(RwLock::new(CheckpointBeacon { checkpoint: 0, hash_prev_block: bootstrap })),
                    network: "Testnet".into(),
                    requests_timeout: Duration::from_secs(20),
                    subscriptions: subs,
                    protocol_info,
                };
                let worker = actors::Worker::start(workers, db, node_params, p);
                actors::App::start(app::Params {
                    testnet: true,
                    worker,
                    client,
                    server_addr: "127.0.0.1:11212".parse().unwrap(),
                    session_expires_in: Duration::from_secs(session_secs),
                    requests_timeout: Duration::from_secs(20),
                    consensus_constants: consensus,
                });
                *done.borrow_mut() = true;
            });
            drop(system);
        });
        for _ in 0..20 {
            if *ready.borrow() {
                break;
            }
            self.run_ns(SEC / 4)?;
        }
        ensure!(*ready.borrow(), "no-answer", "the wallet does not start");
        self.run_ns(SEC / 4)?;
        self.server.borrow_mut().faults = faults;
        Ok(())
    }

    pub fn crash(&mut self, lost: usize) {
        self.disk.crash(lost);
        simrt::kill_node(self.node);
        self.server.borrow_mut().break_all();
        self.up = false;
        self.session = None;
        self.said = None;
        ev!(self.ctx, "crash, {lost} writes lost");
    }

    pub fn node_id(&self) -> NodeId {
        self.node
    }

    pub fn sane(&mut self) -> Res {
        while let Some((_, what)) = simrt::take_fatal() {
            if what.downcast_ref::<rocksdb::Crashed>().is_none() {
                std::panic::resume_unwind(what);
            }
            self.ctx.fault("crash in a write");
            let lost = 0;
            self.crash(lost);
        }
        if let Some((_, text)) = simrt::take_panics().into_iter().next() {
            return Err(Fail::new("panic", format!("the wallet panicked: {text}")));
        }
        if self.up
            && let Some(code) = simrt::exit_code(self.node)
        {
            return Err(Fail::new("stopped", format!("the wallet stopped by itself with code {code}")));
        }
        Ok(())
    }

    /// Seconds of the wall clock.
    pub fn wall(&self) -> i64 {
        self.start.1 + (simrt::now() - self.start.0) / SEC
    }
    pub fn until_block(&self) -> i64 {
        self.time_of(self.epoch + 1) - simrt::now()
    }
    fn time_of(&self, e: Epoch) -> i64 {
        self.start.0 + (self.constants.epoch_timestamp(e).expect("epoch").0 - self.start.1) * SEC
    }

    /// Lets everything run until `cond` or that moment.
    pub fn run_until(&mut self, end: i64, mut cond: impl FnMut() -> bool) -> Res<bool> {
        let t0 = simrt::now();
        let r = loop {
            if cond() {
                break true;
            }
            let block = self.time_of(self.epoch + 1);
            match simrt::step(end.min(block)) {
                Step::Idle => {
                    if simrt::now() >= block {
                        self.epoch += 1;
                        let e = self.epoch;
                        self.server.borrow_mut().tick(e);
                    } else {
                        self.sane()?;
                        break cond();
                    }
                }
                Step::Ran(_) => {
                    self.sane()?;
                    self.listen()?;
                }
                Step::Event => {}
            }
        };
        self.ctx.advance_ns((simrt::now() - t0) as u64);
        Ok(r)
    }
    pub fn run_ns(&mut self, ns: i64) -> Res {
        let end = simrt::now() + ns;
        self.run_until(end, || false).map(|_| ())
    }

    /// Starts a call and gives where its answer will be.
    pub fn start_call(&mut self, method: &str, p: Value) -> Rc<RefCell<Option<Reply>>> {
        let slot: Rc<RefCell<Option<Reply>>> = Rc::default();
        let out = slot.clone();
        let (m, client) = (method.to_string(), self.client.clone());
        simrt::on_node(self.node, move || {
            let Some(h) = witnet_net::server::ws::handler() else { return };
            simrt::spawn(async move {
                let p: RpcParams = serde_json::from_value(p).expect("parameters");
                let r = h.call(&m, p, client).await;
                *out.borrow_mut() = Some(r);
            });
        });
        slot
    }
    /// A call of the user.
    pub fn call(&mut self, method: &str, p: Value) -> Res<Reply> {
        let slot = self.start_call(method, p);
        let s = slot.clone();
        let end = simrt::now() + 1500 * SEC;
        let ok = self.run_until(end, move || s.borrow().is_some())?;
        if !self.up {
            return Ok(Err(jsonrpc_core::Error::internal_error()));
        }
        ensure!(ok, "no-answer", "the wallet does not answer {method} in 25 minutes");
        let r = slot.borrow_mut().take().expect("answer");
        Ok(r)
    }
    /// A call that must work.
    pub fn must(&mut self, method: &str, p: Value) -> Res<Value> {
        match self.call(method, p)? {
            Ok(v) => Ok(v),
            Err(e) => Err(Fail::new("call-failed", format!("{method}: {e:?}"))),
        }
    }
    /// The parameters of a call within the session.
    pub fn with(&self, mut p: Value) -> Value {
        p["session_id"] = json!(self.session.clone().unwrap_or_default());
        p["wallet_id"] = json!(self.wallet_id);
        p
    }

    /// What the wallet says to its user must fit some block.
    fn listen(&mut self) -> Res {
        let list = std::mem::take(&mut *self.client.out.lock().unwrap());
        for (_, p) in list {
            let RpcParams::Array(v) = p else { continue };
            let s = &v[0]["status"];
            if s["wallet"]["id"].as_str() != Some(&self.wallet_id) {
                continue;
            }
            let last = &s["wallet"]["last_sync"];
            let e = last["checkpoint"].as_u64().unwrap_or(u64::MAX) as Epoch;
            let hash = last["hashPrevBlock"].as_str().or(last["hash_prev_block"].as_str()).unwrap_or_default().to_string();
            let b = &s["account"]["balance"];
            ev!(self.ctx, "status at {e} {}: {b} {}", &hash[..8.min(hash.len())], kinds(&v[0]["events"]));
            self.ctx.op("status");
            let sv = self.server.borrow();
            let c = &sv.chain;
            let now = balance_of(&b["unconfirmed"]);
            let done = balance_of(&b["confirmed"]);
            let conf = c.main[..c.confirmed].iter().map(|r| r.view.balance());
            let zero = [(0, 0, 0)];
            ensure!(
                conf.clone().chain(zero).chain(c.main.first().map(|r| r.view.balance())).any(|x| x == done) || !self.server_confirmed_known(),
                "wrong-balance",
                "the confirmed balance {done:?} (available, locked, staked) is that of no confirmed block; the last one has {:?}",
                conf.last()
            );
            let h: Option<Hash> = hash.parse().ok();
            let fits = if self.single {
                let h = h.unwrap_or_default();
                let own = c.view_at(&h).map(|v| v.balance());
                own == Some(now) || c.recs.values().any(|r| r.parent == h && r.view.balance() == now)
            } else {
                c.recs.values().any(|r| r.view.balance() == now) || now == (0, 0, 0)
            };
            ensure!(
                fits,
                "wrong-balance",
                "after block {e} ({}) the balance (available, locked, staked) is {now:?}, and not {:?}; the blocks that follow have {:?}",
                &hash[..8.min(hash.len())],
                h.and_then(|h| c.view_at(&h)).map(|v| v.balance()),
                c.recs.values().filter(|r| Some(r.parent) == h).map(|r| r.view.balance()).collect::<Vec<_>>()
            );
            self.said = Some((e, hash));
        }
        Ok(())
    }
    fn server_confirmed_known(&self) -> bool {
        true
    }
}

fn kinds(v: &Value) -> String {
    v.as_array().map(|a| a.iter().map(|e| e.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_else(|| e.to_string())).collect::<Vec<_>>().join(",")).unwrap_or_default()
}
pub fn num(v: &Value) -> u64 {
    v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok())).unwrap_or(u64::MAX)
}
pub fn balance_of(v: &Value) -> (u64, u64, u64) {
    (num(&v["available"]), num(&v["locked"]), num(&v["staked"]))
}

impl Drop for World {
    fn drop(&mut self) {
        simrt::shutdown();
        set_server(None);
        actix::set_worker_threads(false);
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

impl World {
    pub fn create(&mut self, birth: Value) -> Res {
        let p = json!({
            "name": "mine", "description": null, "password": "password", "seed_source": "mnemonics",
            "seed_data": PHRASES[self.o.phrase], "overwrite": false, "birth_date": birth,
        });
        let r = self.must("create_wallet", p)?;
        self.wallet_id = r["wallet_id"].as_str().unwrap_or_default().to_string();
        Ok(())
    }
    /// A new session.
    pub fn unlock(&mut self) -> Res {
        let id = self.wallet_id.clone();
        let r = self.must("unlock_wallet", json!({"wallet_id": id, "password": "password"}))?;
        let s = r["session_id"].as_str().unwrap_or_default().to_string();
        self.session = Some(s);
        self.client = Arc::default();
        self.said = None;
        ev!(self.ctx, "unlocked");
        self.subscribe()
    }
    /// Asks for notifications, of which the first comes at once.
    pub fn subscribe(&mut self) -> Res {
        let s = self.session.clone();
        self.must("rpc.on", json!({"session_id": s}))?;
        Ok(())
    }
}
