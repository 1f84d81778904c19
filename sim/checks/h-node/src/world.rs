//! A network of real nodes: every actor of the node crate on the simulated machine room.

use rocksdb::Disk;
use simkit::{Ctx, Fail, Res, ensure, ev};
use simrt::{NodeId, Step, net};
use std::{
    cell::RefCell,
    collections::HashMap,
    future::Future,
    net::{IpAddr, Ipv4Addr, SocketAddr},
    path::PathBuf,
    rc::Rc,
    sync::Arc,
    sync::atomic::{AtomicU64, Ordering},
    time::Duration,
};

use actix::prelude::*;
use witnet_config::config::{Config, PartialConfig, StorageBackend};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, MasterKeyGen};
use witnet_data_structures::{
    chain::{
        Bn256PublicKey, Bn256SecretKey, Environment, Epoch, EpochConstants, ExtendedSecretKey, GenesisBlockInfo, Hash, PublicKey,
        PublicKeyHash, ValueTransferOutput,
    },
    clear_protocol_info, get_protocol_info, load_protocol_info,
    proto::versioning::{ProtocolInfo, ProtocolVersion, VersionedHashable},
    register_protocol_version,
};
use witnet_node::{
    actors::{
        chain_manager::ChainManager, connections_manager::ConnectionsManager, epoch_manager::EpochManager,
        inventory_manager::InventoryManager, json_rpc::JsonRpcServer, peers_manager::PeersManager, rad_manager::RadManager,
        sessions_manager::SessionsManager, storage_keys,
    },
    config_mngr, signature_mngr, storage_mngr,
};

pub const SEC: i64 = 1_000_000_000;
/// When epoch zero began.
pub const ZERO: i64 = 1_700_000_000;
pub const WIT: u64 = 1_000_000_000;

pub struct Opts {
    pub nodes: usize,
    /// First epochs of V1_8 and V2_0.
    pub v1_8: Option<Epoch>,
    pub v2_0: Option<Epoch>,
    pub superblock_period: u16,
    /// What every node owns at genesis: (value, lock), for each node.
    pub alloc: Vec<(u64, u64)>,
    /// More outputs of the genesis block, after those of the nodes.
    pub extra_alloc: Vec<ValueTransferOutput>,
    pub tweak: Box<dyn Fn(usize, &mut Config)>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            nodes: 3,
            v1_8: None,
            v2_0: None,
            superblock_period: 5,
            alloc: vec![(1_000_000 * WIT, 0); 6],
            extra_alloc: vec![],
            tweak: Box::new(|_, _| ()),
        }
    }
}

pub struct Node {
    pub id: NodeId,
    pub config: Arc<Config>,
    pub disk: Disk,
    /// What was on it before the node first ran: its keys.
    pub birth: usize,
    pub sk: ExtendedSK,
    pub pk: PublicKey,
    pub pkh: PublicKeyHash,
    pub bn_sk: Bn256SecretKey,
    pub bn_pk: Bn256PublicKey,
    pub addr: SocketAddr,
    pub up: bool,
    pub boots: u32,
}

pub struct World {
    pub nodes: Vec<Node>,
    pub ctx: Ctx,
    pub constants: EpochConstants,
    pub genesis: Hash,
    pub magic: u16,
    pub supply: u64,
    /// Nodes that crashed in the middle of a write.
    pub fell: Vec<usize>,
    initial_protocol: ProtocolInfo,
    protocol: Rc<RefCell<HashMap<NodeId, ProtocolInfo>>>,
    dir: PathBuf,
}

static WORLDS: AtomicU64 = AtomicU64::new(0);

pub fn keys(seed: u8) -> (ExtendedSK, PublicKey, PublicKeyHash, Bn256SecretKey, Bn256PublicKey) {
    let sk = MasterKeyGen::new([seed; 32]).generate().expect("master key");
    let pk: PublicKey = ExtendedPK::from_secret_key(&sk).key.into();
    let pkh = PublicKeyHash::from_public_key(&pk);
    let bn_sk = Bn256SecretKey::from_slice(&[seed.wrapping_add(100); 32]).expect("bn256 key");
    let bn_pk = Bn256PublicKey::from_secret_key(&bn_sk).expect("bn256 key");
    (sk, pk, pkh, bn_sk, bn_pk)
}

impl World {
    pub fn new(ctx: &Ctx, o: Opts) -> World {
        witnet_data_structures::set_environment(Environment::Development);
        clear_protocol_info();
        register_protocol_version(ProtocolVersion::V1_7, 0, 45);
        if let Some(e) = o.v1_8 {
            register_protocol_version(ProtocolVersion::V1_8, e, 45);
        }
        if let Some(e) = o.v2_0 {
            register_protocol_version(ProtocolVersion::V2_0, e, 20);
        }
        let initial_protocol = get_protocol_info();

        simkit::simos::set_realtime_ns((ZERO - 7) * SEC);
        simrt::start(ctx.sub_rng());
        let dir = std::env::temp_dir().join(format!("sim-node-{}-{}", std::process::id(), WORLDS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).expect("scratch folder");

        let all: Vec<_> = (0..o.nodes).map(|i| keys(1 + i as u8)).collect();
        let mut alloc: Vec<Vec<ValueTransferOutput>> = vec![];
        for k in &all {
            alloc.push(o.alloc.iter().map(|&(value, time_lock)| ValueTransferOutput { pkh: k.2, value, time_lock }).collect());
        }
        if !o.extra_alloc.is_empty() {
            alloc.push(o.extra_alloc);
        }
        let supply = alloc.iter().flatten().map(|v| v.value).sum();
        let json = serde_json::json!({"alloc": alloc.iter().map(|t| t.iter().map(|v| serde_json::json!({
            "address": v.pkh.bech32(Environment::Development),
            "value": v.value.to_string(),
            "timelock": v.time_lock.to_string(),
        })).collect::<Vec<_>>()).collect::<Vec<_>>()});
        let genesis_path = dir.join("genesis.json");
        std::fs::write(&genesis_path, json.to_string()).expect("genesis file");

        let mut base = Config::from_partial(&PartialConfig { environment: Environment::Development, ..PartialConfig::default() });
        let c = &mut base.consensus_constants;
        c.checkpoint_zero_timestamp = ZERO;
        c.checkpoints_period = 45;
        c.superblock_period = o.superblock_period;
        c.bootstrapping_committee = all.iter().map(|k| k.2.bech32(Environment::Development)).collect();
        c.minimum_difficulty = 2;
        c.epochs_with_minimum_difficulty = 0;
        c.activity_period = 40;
        c.collateral_age = 5;
        c.superblock_signing_committee_size = 100;
        c.genesis_hash = GenesisBlockInfo { alloc }
            .build_genesis_block(c.bootstrap_hash)
            .versioned_hash(ProtocolVersion::V1_7);
        let genesis = c.genesis_hash;
        base.mining.genesis_path = genesis_path.to_string_lossy().into_owned();
        base.mining.mint_external_percentage = 0;
        base.ntp.enabled = false;
        base.storage.backend = StorageBackend::RocksDB;
        base.jsonrpc.tcp_address = Some("127.0.0.1:21338".parse().unwrap());
        base.connections.outbound_limit = (o.nodes - 1).clamp(1, 8) as u16;
        base.connections.inbound_limit = 32;
        base.connections.consensus_c = 60;
        base.connections.bootstrap_peers_period = Duration::from_secs(1);
        base.connections.feeler_peers_period = Duration::from_secs(3600);
        base.connections.bucketing_ice_period = Duration::from_secs(60);
        base.connections.check_melted_peers_period = Duration::from_secs(60);
        base.protocol.v1_7 = Some((0, 45));
        base.protocol.v1_8 = o.v1_8.map(|e| (e, 45));
        base.protocol.v2_0 = o.v2_0.map(|e| (e, 20));

        let constants = EpochConstants {
            checkpoint_zero_timestamp: ZERO,
            checkpoints_period: 45,
            checkpoint_zero_timestamp_wit2: o.v2_0.map(|e| ZERO + 45 * i64::from(e)).unwrap_or(i64::MAX),
            checkpoints_period_wit2: 20,
        };
        let addrs: Vec<SocketAddr> = (0..o.nodes).map(|i| SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 1 + i as u8, 0, 1)), 21337)).collect();
        let mut nodes = vec![];
        for (i, (sk, pk, pkh, bn_sk, bn_pk)) in all.into_iter().enumerate() {
            let id = simrt::add_node();
            net::set_ip(id, addrs[i].ip());
            let mut config = base.clone();
            config.connections.server_addr = addrs[i];
            config.connections.public_addr = Some(addrs[i]);
            config.connections.known_peers = addrs.iter().copied().filter(|a| *a != addrs[i]).collect();
            config.storage.db_path = dir.join(format!("db{i}"));
            (o.tweak)(i, &mut config);
            let disk = rocksdb::disk_at(&config.storage.db_path);
            {
                let db = disk.open().expect("disk");
                let master: &[u8] = storage_keys::MASTER_KEY;
                let bn: &[u8] = storage_keys::BN256_SECRET_KEY;
                db.put(bincode::serialize(&master).unwrap(), bincode::serialize(&ExtendedSecretKey::from(sk.clone())).unwrap()).unwrap();
                db.put(bincode::serialize(&bn).unwrap(), bincode::serialize(&bn_sk).unwrap()).unwrap();
                disk.sync();
            }
            let birth = disk.records();
            nodes.push(Node { id, config: Arc::new(config), disk, sk, pk, pkh, bn_sk, bn_pk, addr: addrs[i], up: false, boots: 0, birth });
        }
        let protocol: Rc<RefCell<HashMap<NodeId, ProtocolInfo>>> = Rc::default();
        {
            let p = protocol.clone();
            let initial = initial_protocol.clone();
            simrt::set_switch_hook(Some(Box::new(move |from, to| {
                let mut p = p.borrow_mut();
                if let Some(f) = from {
                    p.insert(f, get_protocol_info());
                }
                load_protocol_info(p.get(&to).unwrap_or(&initial).clone());
            })));
        }
        // What the nodes of mainnet say, whatever their constants are.
        let magic = 10700;
        World { nodes, ctx: ctx.clone(), constants, genesis, magic, supply, fell: vec![], initial_protocol, protocol, dir }
    }

    /// What `node::run` does.
    pub fn boot(&mut self, i: usize) -> Res {
        let n = &mut self.nodes[i];
        assert!(!n.up);
        if n.boots > 0 {
            simrt::revive_node(n.id);
        }
        n.boots += 1;
        n.up = true;
        let (id, config) = (n.id, n.config.clone());
        let initial = self.initial_protocol.clone();
        simrt::on_node(id, || {
            load_protocol_info(initial);
            let system = System::new();
            let witnessing = witnet_validations::witnessing::validate_witnessing_config::<String, witnet_rad::Uri>(
                &config.witnessing.clone().into_config(),
            )
            .expect("witnessing configuration");
            let rt = tokio::runtime::Runtime::new().unwrap();
            let rpc = JsonRpcServer::from_config(&config).initialize(rt.handle().clone()).expect("json-rpc server");
            config_mngr::start(config.clone());
            storage_mngr::start();
            signature_mngr::start();
            SystemRegistry::set(PeersManager::from_config(&config).start());
            SystemRegistry::set(ConnectionsManager.start());
            SystemRegistry::set(SessionsManager::default().start());
            SystemRegistry::set(EpochManager::default().start());
            SystemRegistry::set(ChainManager::default().start());
            SystemRegistry::set(InventoryManager.start());
            SystemRegistry::set(RadManager::from_config(witnessing).start());
            SystemRegistry::set(rpc.start());
            drop(system);
        });
        ev!(self.ctx, "boot {i}");
        self.sane()
    }

    /// The machine loses power; `lost` of its unsynced writes are gone.
    pub fn crash(&mut self, i: usize, lost: usize) {
        let n = &mut self.nodes[i];
        n.disk.crash(lost);
        simrt::kill_node(n.id);
        n.up = false;
        self.protocol.borrow_mut().remove(&n.id);
        ev!(self.ctx, "crash {i}");
    }


    pub fn epoch_start(&self, e: Epoch) -> i64 {
        self.constants.epoch_timestamp(e).expect("epoch").0
    }

    /// No node panicked or gave up.
    pub fn sane(&mut self) -> Res {
        while let Some((node, what)) = simrt::take_fatal() {
            let i = self.nodes.iter().position(|n| n.id == node).expect("a node of ours");
            if what.downcast_ref::<rocksdb::Crashed>().is_none() {
                std::panic::resume_unwind(what);
            }
            let lost = self.ctx.below(self.nodes[i].disk.unsynced() as u64 + 1) as usize;
            self.ctx.fault("crash in a write");
            self.crash(i, lost);
            self.fell.push(i);
        }
        if let Some((node, text)) = simrt::take_panics().into_iter().next() {
            return Err(Fail::new("node-panicked", format!("node {node} panicked: {text}")));
        }
        for n in self.nodes.iter().filter(|n| n.up) {
            if let Some(code) = simrt::exit_code(n.id) {
                return Err(Fail::new("node-stopped", format!("node {} stopped by itself with code {code}", n.id)));
            }
        }
        Ok(())
    }

    /// Lets the network run for that long.
    pub fn run_ns(&mut self, ns: i64) -> Res {
        let end = simrt::now() + ns;
        self.ctx.advance_ns(ns as u64);
        loop {
            match simrt::step(end) {
                Step::Idle => return self.sane(),
                Step::Ran(_) => self.sane()?,
                Step::Event => {}
            }
        }
    }

    /// Asks a node and waits for the answer, at most so long.
    pub fn ask<T: 'static, F: Future<Output = T> + 'static>(&mut self, i: usize, limit_ns: i64, f: impl FnOnce() -> F) -> Res<Option<T>> {
        let slot: Rc<RefCell<Option<T>>> = Rc::default();
        let out = slot.clone();
        simrt::on_node(self.nodes[i].id, || {
            let f = f();
            simrt::spawn(async move {
                let r = f.await;
                *out.borrow_mut() = Some(r);
            })
        });
        let start = simrt::now();
        let end = start + limit_ns;
        loop {
            if let Some(v) = slot.borrow_mut().take() {
                self.ctx.advance_ns((simrt::now() - start) as u64);
                return Ok(Some(v));
            }
            match simrt::step(end) {
                Step::Idle => {
                    self.ctx.advance_ns(limit_ns as u64);
                    return Ok(None);
                }
                _ => self.sane()?,
            }
        }
    }

    /// Asks the chain manager of a node.
    pub fn chain<M>(&mut self, i: usize, m: M) -> Res<M::Result>
    where
        M: Message + Send + 'static,
        M::Result: Send + 'static,
        ChainManager: Handler<M>,
    {
        let r = self.ask(i, 60 * SEC, || {
            let a = ChainManager::from_registry();
            async move { a.send(m).await }
        })?;
        match r {
            Some(Ok(v)) => Ok(v),
            Some(Err(e)) => Err(Fail::new("no-answer", format!("the chain manager of node {i}: {e}"))),
            None => Err(Fail::new("no-answer", format!("the chain manager of node {i} does not answer within a minute"))),
        }
    }

    pub fn rpc(&mut self, i: usize, method: &str, params: serde_json::Value) -> Res<serde_json::Value> {
        let q = serde_json::json!({"jsonrpc":"2.0","id":1,"method":method,"params":params}).to_string();
        let r = self.ask(i, 60 * SEC, || witty_jsonrpc::call(q, witty_jsonrpc::Session::mock()))?;
        let r = r.flatten();
        ensure!(r.is_some(), "no-answer", "node {i} does not answer {method}");
        Ok(serde_json::from_str(&r.unwrap()).expect("answer is json"))
    }
}

impl Drop for World {
    fn drop(&mut self) {
        simrt::shutdown();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
