//! W03: only who has the password or the session gets to a wallet, which is as its owner left it.

use crate::chain::SEC;
use crate::{twist::twist, world::*};
use bech32::ToBase32;
use rocksdb::IoFault;
use serde_json::{Value, json};
use simkit::{Ctx, Fail, Res, ensure, ev};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use witnet_crypto::{
    hash::calculate_sha256,
    key::{ExtendedPK, ExtendedSK, KeyPath},
    signature,
};
use witnet_wallet::{account, crypto, types};

/// Whose keys: a phrase, and whether the two keys below its master are used instead of it.
type Ident = (usize, bool);

pub struct Seed {
    slip: [String; 3],
    parents: [(String, String); 2],
    secrets: Vec<Vec<u8>>,
    ids: [String; 2],
}
static SEEDS: std::sync::OnceLock<Vec<Seed>> = std::sync::OnceLock::new();
/// To be called before the first run.
pub fn seeds() -> &'static [Seed] {
    SEEDS.get_or_init(|| {
        let c = World::config();
        PHRASES
            .iter()
            .map(|p| {
                let m = witnet_crypto::mnemonic::Mnemonic::from_phrase((*p).into()).expect("phrase");
                let mk = crypto::gen_master_key(c.wallet.seed_password.as_ref(), c.wallet.master_key_salt.as_ref(), &types::SeedSource::Mnemonics(m)).expect("key");
                let a = account::gen_account(0, &mk).expect("account");
                let slip = [&mk, &a.internal, &a.external].map(|k| k.to_slip32(&KeyPath::default()).expect("key"));
                let part = |k: &ExtendedSK| (ExtendedPK::from_secret_key(k).key.to_string(), hex::encode(k.chain_code()));
                let mut secrets = vec![p.as_bytes().to_vec()];
                for k in [&mk, &a.internal, &a.external] {
                    secrets.push(k.secret_key[..].to_vec());
                    secrets.push(k.chain_code().to_vec());
                }
                secrets.extend(slip.iter().map(|s| s.as_bytes()[10..40].to_vec()));
                let ids = [&mk, &a.external].map(|k| crypto::gen_wallet_id(&c.wallet.id_hash_function, k, c.wallet.master_key_salt.as_ref(), 2));
                Seed { ids, parents: [part(&a.external), part(&a.internal)], slip, secrets }
            })
            .collect()
    })
}

/// A wallet from its creation to its replacement.
#[derive(Clone, PartialEq, Debug)]
struct Inc {
    id: String,
    ident: Ident,
    password: String,
    name: Option<String>,
    desc: Option<String>,
    kv: BTreeMap<String, Value>,
    addr: [Vec<Option<String>>; 2],
}
#[derive(Clone, PartialEq, Debug)]
struct Sess {
    inc: usize,
    held: bool,
    /// When it ends: not before, not after.
    end: (i64, i64),
    /// When it may be extended again.
    again: (i64, i64),
}
#[derive(Clone, PartialEq, Debug, Default)]
struct Model {
    incs: Vec<Inc>,
    current: BTreeMap<String, usize>,
    names: BTreeMap<String, Option<String>>,
    sessions: BTreeMap<String, Sess>,
    ids: BTreeMap<Ident, String>,
}

#[derive(Clone, Debug)]
enum How {
    Phrase,
    /// An export and the password with which it was made.
    Export(String, String),
}
#[derive(Clone, Debug)]
enum Op {
    Create { ident: Option<Ident>, how: How, text: String, password: String, name: Option<String>, desc: Option<String>, overwrite: bool, birth: Value },
    Validate { ident: Option<Ident>, how: How, text: String },
    Unlock { id: String, password: String },
    Infos,
    Refresh { s: String },
    Close { s: String },
    In { s: String, id: String, what: What },
}
#[derive(Clone, Debug)]
enum What {
    Lock,
    Delete,
    Update(Option<String>, Option<String>),
    Set(String, Value),
    Get(String),
    Gen(usize, Option<String>),
    List(usize, u32, u32),
    Sign(String, bool),
    Export(String),
    Balance,
}

fn call_of(op: &Op) -> (&'static str, Value) {
    let source = |how: &How, text: &str| match how {
        How::Phrase => ("mnemonics", json!(text), Value::Null),
        How::Export(_, p) => ("xprv", json!(text), json!(p)),
    };
    match op {
        Op::Create { how, text, password, name, desc, overwrite, birth, .. } => {
            let (src, data, backup) = source(how, text);
            let p = json!({"name": name, "description": desc, "password": password, "seed_source": src, "seed_data": data,
                "overwrite": overwrite, "backup_password": backup, "birth_date": birth});
            ("create_wallet", p)
        }
        Op::Validate { how, text, .. } => {
            let (src, data, backup) = source(how, text);
            ("validate_mnemonics", json!({"seed_source": src, "seed_data": data, "backup_password": backup}))
        }
        Op::Unlock { id, password } => ("unlock_wallet", json!({"wallet_id": id, "password": password})),
        Op::Infos => ("get_wallet_infos", json!(null)),
        Op::Refresh { s } => ("refresh_session", json!({"session_id": s})),
        Op::Close { s } => ("close_session", json!({"session_id": s})),
        Op::In { s, id, what } => {
            let mut p = json!({"session_id": s, "wallet_id": id});
            let m = match what {
                What::Lock => "lock_wallet",
                What::Delete => "delete_wallet",
                What::Update(n, d) => {
                    p["name"] = json!(n);
                    p["description"] = json!(d);
                    "update_wallet"
                }
                What::Set(k, v) => {
                    p["key"] = json!(k);
                    p["value"] = v.clone();
                    "set"
                }
                What::Get(k) => {
                    p["key"] = json!(k);
                    "get"
                }
                What::Gen(kc, l) => {
                    p["external"] = json!(*kc == 0);
                    p["label"] = json!(l);
                    "generate_address"
                }
                What::List(kc, o, l) => {
                    p["external"] = json!(*kc == 0);
                    p["offset"] = json!(o);
                    p["limit"] = json!(l);
                    "get_addresses"
                }
                What::Sign(d, e) => {
                    p["data"] = json!(d);
                    p["extended_pk"] = json!(e);
                    "sign_data"
                }
                What::Export(pw) => {
                    p["password"] = json!(pw);
                    "export_master_key"
                }
                What::Balance => "get_balance",
            };
            (m, p)
        }
    }
}

/// How a call went: with this answer, with an error, or nobody knows.
#[derive(Clone, Debug)]
enum Out {
    Ok(Value),
    Err(String),
    Lost,
}

struct Env {
    many: bool,
    t: (i64, i64),
    /// Errors may be due to the disk.
    io: bool,
    secs: i64,
}

type Next = Result<Vec<Model>, String>;

impl Model {
    /// The states after a call with that outcome.
    fn step(&self, op: &Op, out: &Out, e: &Env) -> Next {
        let must = |want: bool, m: Vec<Model>| -> Next {
            // What the call does if it is done.
            match (out, want) {
                (Out::Ok(_), true) => Ok(m),
                (Out::Err(_), false) => Ok(vec![self.clone()]),
                (Out::Lost, true) => Ok([vec![self.clone()], m].concat()),
                (Out::Lost, false) => Ok(vec![self.clone()]),
                (Out::Err(_), true) if e.io => Ok([vec![self.clone()], m].concat()),
                (Out::Ok(v), false) => Err(format!("{op:?} is answered {v}, but is not to be done")),
                (Out::Err(x), true) => Err(format!("{op:?} fails with {x}")),
            }
        };
        let said = |f: &str| match out {
            Out::Ok(v) => v[f].clone(),
            _ => Value::Null,
        };
        let eq = |a: &Value, b: Value, what: &str| if *a == b { Ok(()) } else { Err(format!("{op:?}: {what} is {a}, not {b}")) };
        match op {
            Op::Create { ident, password, name, desc, overwrite, birth, .. } => {
                // The node may not know the blocks before.
                if let (false, Out::Err(_), false) = (birth.is_null(), out, e.io) {
                    return Ok(vec![self.clone()]);
                }
                let mut n = self.clone();
                let mut id = ident.and_then(|i| self.ids.get(&i).cloned());
                if let Out::Ok(v) = out {
                    let got = v["wallet_id"].as_str().unwrap_or_default().to_string();
                    if id.as_ref().is_some_and(|i| *i != got) {
                        return Err(format!("{op:?}: the wallet {got} was {id:?} before"));
                    }
                    if id.is_none() && self.ids.values().any(|i| *i == got) {
                        return Err(format!("{op:?}: two wallets are {got}"));
                    }
                    id = Some(got);
                }
                let valid = ident.is_some() && password.len() >= 8 && (*overwrite || id.as_ref().is_none_or(|i| !self.current.contains_key(i)));
                if !valid {
                    return must(false, vec![]);
                }
                let ident = ident.unwrap();
                let id = id.unwrap_or_else(|| seeds()[ident.0].ids[usize::from(ident.1)].clone());
                n.ids.insert(ident, id.clone());
                n.incs.push(Inc {
                    id: id.clone(),
                    ident,
                    password: password.clone(),
                    name: name.clone(),
                    desc: desc.clone(),
                    kv: BTreeMap::new(),
                    addr: Default::default(),
                });
                n.current.insert(id.clone(), n.incs.len() - 1);
                let before = n.names.insert(id.clone(), name.clone()).flatten();
                let mut all = vec![n];
                // Known finding: a wallet that is made again without a name keeps its old one in the list.
                if name.is_none() && before.is_some() {
                    let mut n = all[0].clone();
                    n.names.insert(id, before);
                    all.push(n);
                }
                must(true, all)
            }
            Op::Validate { ident, .. } => {
                let mut n = self.clone();
                if let (Some(i), Out::Ok(v)) = (ident, out) {
                    let got = v["wallet_id"].as_str().unwrap_or_default().to_string();
                    if self.ids.get(i).is_some_and(|x| *x != got) || self.ids.iter().any(|(k, v)| *v == got && k != i) {
                        return Err(format!("{op:?} is {got}, {:?}", self.ids));
                    }
                    n.ids.insert(*i, got.clone());
                    eq(&v["exist"], json!(self.current.contains_key(&got)), "whether it exists")?;
                }
                must(ident.is_some(), vec![n])
            }
            Op::Infos => {
                if let Out::Ok(v) = out {
                    let mut got = BTreeMap::new();
                    for i in v["infos"].as_array().into_iter().flatten() {
                        let id = i["id"].as_str().unwrap_or_default().to_string();
                        if got.insert(id.clone(), i["name"].clone()).is_some() {
                            return Err(format!("{id} is listed twice"));
                        }
                    }
                    let want: BTreeMap<String, Value> = self.current.keys().map(|k| (k.clone(), json!(self.names[k]))).collect();
                    if got != want {
                        return Err(format!("the wallets are {got:?}, not {want:?}"));
                    }
                }
                must(true, vec![self.clone()])
            }
            Op::Unlock { id, password } => {
                let inc = self.current.get(id).copied().filter(|i| self.incs[*i].password == *password);
                let Some(inc) = inc else { return must(false, vec![]) };
                let w = &self.incs[inc];
                let mut n = self.clone();
                if let Out::Ok(v) = out {
                    let s = v["session_id"].as_str().unwrap_or_default().to_string();
                    if s.len() < 16 || self.sessions.contains_key(&s) {
                        return Err(format!("{op:?}: the session {s} is not a new one"));
                    }
                    eq(&v["name"], json!(w.name), "the name")?;
                    eq(&v["description"], json!(w.desc), "the description")?;
                    eq(&v["current_account"], json!(0), "the account")?;
                    eq(&v["session_expiration_secs"], json!(e.secs), "the time")?;
                    let end = (e.t.0 + e.secs * SEC, e.t.1 + e.secs * SEC);
                    n.sessions.insert(s, Sess { inc, held: true, end, again: (0, 0) });
                }
                must(true, vec![n])
            }
            Op::Refresh { s } | Op::Close { s } => {
                let Some(x) = self.sessions.get(s).filter(|x| e.t.0 <= x.end.1) else { return must(false, vec![]) };
                if matches!(out, Out::Err(_)) && e.t.1 >= x.end.0 {
                    return Ok(vec![self.clone()]);
                }
                let mut n = self.clone();
                if let Op::Close { .. } = op {
                    n.sessions.remove(s);
                } else if let Out::Ok(_) = out {
                    let done = said("success") == json!(true);
                    if done && e.t.1 < x.again.0 {
                        return Err(format!("the session {s} is extended twice"));
                    }
                    if !done && e.t.0 > x.again.1 {
                        return Err(format!("the session {s} is not extended"));
                    }
                    if done {
                        let y = n.sessions.get_mut(s).unwrap();
                        y.again = x.end;
                        y.end = (e.t.0 + e.secs * SEC, e.t.1 + e.secs * SEC);
                    }
                }
                must(true, vec![n])
            }
            Op::In { s, id, what } => {
                let x = self.sessions.get(s).filter(|x| e.t.0 <= x.end.1);
                let x = match (x, what) {
                    // It is locked anyway.
                    (Some(_), What::Lock) => x,
                    _ => x.filter(|x| x.held && self.incs[x.inc].id == *id),
                };
                let Some(x) = x else {
                    // Deleted while it is locked or deleted.
                    if let (What::Delete, true, Some(x)) = (what, e.many, self.sessions.get(s).filter(|x| e.t.0 <= x.end.1))
                        && self.incs[x.inc].id == *id
                        && !matches!(out, Out::Err(_))
                    {
                        let mut n = self.clone();
                        n.current.remove(id);
                        return Ok(if matches!(out, Out::Lost) { vec![self.clone(), n] } else { vec![n] });
                    }
                    return must(false, vec![]);
                };
                if matches!(out, Out::Err(_)) && e.t.1 >= x.end.0 {
                    return Ok(vec![self.clone()]);
                }
                let mut n = self.clone();
                let mut more = vec![];
                let w = &self.incs[x.inc];
                let nw = &mut n.incs[x.inc];
                let ok = matches!(out, Out::Ok(_));
                match what {
                    What::Lock => {
                        let y = n.sessions.get_mut(s).unwrap();
                        y.held = y.held && self.incs[y.inc].id != *id;
                    }
                    What::Delete => {
                        n.current.remove(id);
                        n.sessions.get_mut(s).unwrap().held = false;
                        if !ok {
                            // deleted, and not locked yet
                            let mut m = self.clone();
                            m.current.remove(id);
                            more.push(m);
                        }
                    }
                    What::Update(name, desc) => {
                        if name.is_some() {
                            nw.name = name.clone();
                            n.names.insert(id.clone(), name.clone());
                        }
                        if desc.is_some() {
                            n.incs[x.inc].desc = desc.clone();
                        }
                        if !ok {
                            let mut m = n.clone();
                            m.names = self.names.clone();
                            more.push(m);
                            let mut m = n.clone();
                            m.incs = self.incs.clone();
                            more.push(m);
                        }
                    }
                    What::Set(k, v) => {
                        nw.kv.insert(k.clone(), v.clone());
                    }
                    What::Get(k) => {
                        if ok {
                            eq(&said("value"), w.kv.get(k).cloned().unwrap_or(Value::Null), "the value")?;
                        }
                    }
                    What::Gen(kc, label) => {
                        nw.addr[*kc].push(label.clone());
                        if ok {
                            let i = w.addr[*kc].len();
                            let want = keyring().0[w.ident.0][*kc][i].to_string();
                            eq(&said("address"), json!(want), &format!("address {i}"))?;
                            let path = said("path").as_str().unwrap_or_default().replace('h', "'");
                            eq(&json!(path), json!(format!("m/3'/4919'/0'/{kc}/{i}")), "the path")?;
                        }
                    }
                    What::List(kc, o, l) => {
                        if ok {
                            let a = &w.addr[*kc];
                            let want: Vec<Value> = (0..a.len())
                                .rev()
                                .skip(*o as usize)
                                .take(*l as usize)
                                .map(|i| json!([keyring().0[w.ident.0][*kc][i].to_string(), i, a[i]]))
                                .collect();
                            let got: Vec<Value> =
                                said("addresses").as_array().into_iter().flatten().map(|a| json!([a["address"], a["index"], a["info"]["label"]])).collect();
                            eq(&json!(got), json!(want), "the list")?;
                            eq(&said("total"), json!(a.len()), "the total")?;
                        }
                    }
                    What::Sign(d, ext) => {
                        if ok {
                            let (key, code) = &seeds()[w.ident.0].parents[0];
                            eq(&said("public_key"), json!(key), "the key")?;
                            eq(&said("chaincode"), if *ext { json!(code) } else { json!(null) }, "the chain code")?;
                            let sig = signature::Signature::from_str(said("signature").as_str().unwrap_or_default());
                            let pk = signature::PublicKey::from_str(key).expect("key");
                            let good = sig.is_ok_and(|s| signature::verify(&pk, calculate_sha256(d.as_bytes()).as_ref(), &s).is_ok());
                            if !good {
                                return Err(format!("{op:?}: {:?} is no signature", said("signature")));
                            }
                        }
                    }
                    What::Export(pw) => {
                        if ok {
                            let got = opened(said("master_key").as_str().unwrap_or_default(), pw);
                            let z = &seeds()[w.ident.0].slip;
                            let want = if w.ident.1 { ("xprvdouble".to_string(), format!("{}{}", z[1], z[2])) } else { ("xprv".to_string(), z[0].clone()) };
                            if got.as_ref() != Some(&want) {
                                return Err(format!("{op:?}: the key is {got:?}, not {want:?}"));
                            }
                        }
                    }
                    What::Balance => {
                        if ok && let Out::Ok(v) = out {
                            for part in ["confirmed", "unconfirmed"] {
                                eq(&json!(balance_of(&v[part])), json!((0, 0, 0)), "the balance")?;
                            }
                        }
                    }
                }
                more.push(n);
                must(true, more)
            }
        }
    }
}

/// What is in an export.
fn opened(text: &str, password: &str) -> Option<(String, String)> {
    let (hrp, data) = bech32::decode(text).ok()?;
    let bytes: Vec<u8> = bech32::FromBase32::from_base32(&data).ok()?;
    let key = crypto::decrypt_cbc(&bytes, password.as_bytes()).ok()?;
    Some((hrp, String::from_utf8(key).ok()?))
}

struct Run {
    w: World,
    ctx: Ctx,
    models: Vec<Model>,
    /// Exports that were given out.
    exports: Vec<(Ident, String, String)>,
    passwords: Vec<String>,
    private: Vec<String>,
    ended: Vec<String>,
    io: bool,
}

impl Run {
    fn word(&mut self) -> String {
        let w = format!("{:012x}", self.ctx.u64() >> 16);
        format!("{w}{}", ["", "é", " x", "\u{1F600}"][self.ctx.idx(4)])
    }
    fn secret(&mut self) -> String {
        let w = self.word();
        self.private.push(w.clone());
        w
    }
    fn password(&mut self) -> String {
        if !self.passwords.is_empty() && self.ctx.chance(1, 3) {
            return self.ctx.pick(&self.passwords).clone();
        }
        let p = self.word();
        self.passwords.push(p.clone());
        self.private.push(p.clone());
        p
    }
    fn any(&self) -> &Model {
        &self.models[0]
    }
    fn seed(&mut self) -> (Option<Ident>, How, String) {
        let ctx = self.ctx.clone();
        let p = ctx.idx(PHRASES.len());
        match ctx.below(8) {
            0..=3 => (Some((p, false)), How::Phrase, PHRASES[p].to_string()),
            4 => {
                // Two keys, made up elsewhere.
                let z = &seeds()[p].slip;
                let pw = self.password();
                let bytes = crypto::encrypt_cbc(format!("{}{}", z[1], z[2]).as_bytes(), pw.as_bytes()).expect("encryption");
                let text = bech32::encode("xprvdouble", bytes.to_base32()).expect("text");
                (Some((p, true)), How::Export(text.clone(), pw), text)
            }
            5 | 6 if !self.exports.is_empty() => {
                let (i, text, pw) = ctx.pick(&self.exports).clone();
                if ctx.chance(1, 4) {
                    let other = format!("{pw}{}", ctx.below(10));
                    ctx.fault("wrong backup password");
                    return (None, How::Export(text.clone(), other), text);
                }
                (Some(i), How::Export(text.clone(), pw), text)
            }
            _ => {
                ctx.fault("broken seed");
                let (how, mut text) = if ctx.chance(1, 3) || self.exports.is_empty() {
                    (How::Phrase, PHRASES[p].to_string())
                } else {
                    let (_, t, pw) = ctx.pick(&self.exports).clone();
                    (How::Export(t.clone(), pw), t)
                };
                match ctx.below(6) {
                    0 => text.truncate(ctx.idx(text.len())),
                    1 => text = String::new(),
                    2 => {
                        // Well-formed, but too short or not what it should be.
                        let n = *ctx.pick(&[0usize, 1, 5, 15, 16, 17, 31, 32, 47, 48, 49, 64, 200]);
                        let bytes = ctx.bytes(n);
                        let hrp = *ctx.pick(&["xprv", "xprvdouble", "wit", "xpub"]);
                        text = bech32::encode(hrp, bytes.to_base32()).expect("text");
                        let pw = self.password();
                        return (None, How::Export(text.clone(), pw), text);
                    }
                    3 => {
                        // The right password, but no key.
                        let pw = self.password();
                        let z = &seeds()[p].slip;
                        let plain = match ctx.below(6) {
                            0 => String::new(),
                            1 => "xprvxprv".to_string(),
                            2 => format!("{}{}", z[1], &z[2][..z[2].len() - 1]),
                            3 => z[0][..z[0].len() - 1].to_string(),
                            4 => format!("{}{}{}", z[1], z[2], z[0]),
                            _ => "xprv1é".to_string(),
                        };
                        let bytes = crypto::encrypt_cbc(plain.as_bytes(), pw.as_bytes()).expect("encryption");
                        text = bech32::encode(*ctx.pick(&["xprv", "xprvdouble"]), bytes.to_base32()).expect("text");
                        return (None, How::Export(text.clone(), pw), text);
                    }
                    4 => text = format!("{} é", text),
                    _ => {
                        let mut c: Vec<char> = text.chars().collect();
                        let k = ctx.idx(c.len());
                        c[k] = if c[k] == 'q' { 'p' } else { 'q' };
                        text = c.into_iter().collect();
                    }
                }
                (None, how, text)
            }
        }
    }
    fn name(&mut self) -> Option<String> {
        self.ctx.chance(2, 3).then(|| format!("name {}", self.ctx.below(5)))
    }

    fn op(&mut self, before: &[Op]) -> Op {
        let ctx = self.ctx.clone();
        let m = self.any().clone();
        let known: Vec<String> = m.ids.values().cloned().collect();
        let id = |ctx: &Ctx| if known.is_empty() || ctx.chance(1, 15) { "ab".repeat(32) } else { ctx.pick(&known).clone() };
        let live: Vec<(String, Sess)> = m.sessions.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let in_ = if live.is_empty() { 2 } else { 16 };
        let again = matches!(before.last(), Some(Op::Create { .. })) && ctx.chance(1, 2);
        match ctx.weighted(&[if again { 100 } else { 4 }, 1, if live.is_empty() { 12 } else { 4 }, 2, 2, 1, in_]) {
            0 => {
                let (ident, how, text) = match before.last() {
                    // The same one twice at once.
                    Some(Op::Create { ident, how, text, .. }) if again => (*ident, how.clone(), text.clone()),
                    _ => self.seed(),
                };
                let password = if ctx.chance(1, 10) {
                    (*ctx.pick(&["", "1234567", "ééé", "\u{1F600}"])).to_string()
                } else {
                    self.password()
                };
                let desc = ctx.chance(1, 2).then(|| self.secret());
                let birth = match ctx.below(12) {
                    0 => json!("current"),
                    1 => json!({"imported": ctx.below(30)}),
                    2 => json!({"imported": ctx.below(u64::from(self.w.epoch) + 3)}),
                    _ => Value::Null,
                };
                Op::Create { ident, how, text, password, name: self.name(), desc, overwrite: ctx.chance(1, 3), birth }
            }
            1 => {
                let (ident, how, text) = self.seed();
                Op::Validate { ident, how, text }
            }
            2 => {
                let id = id(&ctx);
                let password = match m.current.get(&id) {
                    Some(i) if ctx.chance(3, 4) => m.incs[*i].password.clone(),
                    Some(i) if ctx.chance(1, 2) => {
                        let mut p = m.incs[*i].password.clone();
                        p.pop();
                        p
                    }
                    _ => self.password(),
                };
                Op::Unlock { id, password }
            }
            3 => Op::Infos,
            k => {
                // A session that is over, or never was, is refused.
                let (s, w) = match ctx.below(10) {
                    0 => ("cd".repeat(32), id(&ctx)),
                    1 if !self.ended.is_empty() => (ctx.pick(&self.ended).clone(), id(&ctx)),
                    _ if live.is_empty() => ("cd".repeat(32), id(&ctx)),
                    2 => (ctx.pick(&live).0.clone(), id(&ctx)),
                    _ => {
                        let (s, x) = ctx.pick(&live);
                        (s.clone(), m.incs[x.inc].id.clone())
                    }
                };
                if k == 4 {
                    return Op::Refresh { s };
                }
                if k == 5 {
                    return Op::Close { s };
                }
                // What is in memory of a session but the last one gets stale.
                let x = m.sessions.get(&s).cloned();
                let last = x.as_ref().is_some_and(|x| {
                    !m.sessions.values().any(|y| y.inc == x.inc && y.end.1 > x.end.1) && !m.sessions.iter().any(|(k, y)| *k != s && y.inc == x.inc)
                }) && !before.iter().any(|o| matches!(o, Op::Unlock { .. }));
                let what = match ctx.weighted(&[1, 1, 2, 4, 4, 3, 3, 1, 2, 1]) {
                    0 => What::Lock,
                    1 => What::Delete,
                    2 if !before.iter().any(|o| matches!(o, Op::Create { .. } | Op::In { what: What::Update(..), .. })) => {
                        What::Update(self.name(), ctx.chance(1, 2).then(|| self.secret()))
                    }
                    5 if last => What::Gen(ctx.idx(2), ctx.chance(1, 2).then(|| self.secret())),
                    6 if last => What::List(ctx.idx(2), ctx.below(4) as u32, ctx.below(6) as u32),
                    7 => What::Sign(self.word(), ctx.chance(1, 2)),
                    8 => What::Export(self.password()),
                    9 => What::Balance,
                    3 => {
                        let v = self.secret();
                        let v = if ctx.chance(1, 2) { json!([v]) } else { json!({"v": v, "n": null}) };
                        What::Set(format!("k{}", ctx.below(4)), v)
                    }
                    _ => What::Get(format!("k{}", ctx.below(4))),
                };
                Op::In { s, id: w, what }
            }
        }
    }

    fn batch(&mut self) -> Res {
        let ctx = self.ctx.clone();
        let n = if ctx.chance(1, 4) { 2 + ctx.below(2) as usize } else { 1 };
        let mut ops = vec![];
        for _ in 0..n {
            let o = self.op(&ops);
            // Names are kept in two places.
            if matches!(o, Op::Create { .. }) && ops.iter().any(|o| matches!(o, Op::In { what: What::Update(..), .. })) {
                continue;
            }
            ops.push(o);
        }
        self.faulty(ops)
    }

    fn faulty(&mut self, ops: Vec<Op>) -> Res {
        let ctx = self.ctx.clone();
        if ctx.chance(1, 12) {
            let f = match ctx.below(4) {
                0 if self.io => IoFault::Fail,
                1 if self.io => IoFault::FailAfter,
                2 => IoFault::CrashBefore,
                _ => IoFault::CrashAfter,
            };
            self.w.disk.fault_write(ctx.below(3), f);
        }
        self.exec(ops)?;
        self.w.disk.clear_faults();
        if !self.w.up {
            self.restart()?;
        }
        Ok(())
    }

    fn exec(&mut self, ops: Vec<Op>) -> Res {
        let ctx = self.ctx.clone();
        let t0 = simrt::now();
        let mut slots = vec![];
        for o in &ops {
            let (m, p) = call_of(o);
            ev!(ctx, "{m} {}", p.to_string().chars().take(160).collect::<String>());
            ctx.op(m);
            slots.push(self.w.start_call(m, p));
            if ctx.chance(1, 3) {
                self.w.run_ns(ctx.below(3_000_000) as i64)?;
            }
        }
        let waiting = slots.clone();
        let node = self.w.node_id();
        let ok = self.w.run_until(t0 + 1500 * SEC, move || waiting.iter().all(|s| s.borrow().is_some()) || !simrt::alive(node))?;
        if !ok && self.w.up {
            return Err(Fail::new("no-answer", format!("the wallet does not answer {ops:?} in 25 minutes")));
        }
        self.w.sane()?;
        let fired = self.w.disk.take_fired();
        for f in &fired {
            ctx.fault(f);
        }
        let e = Env { many: ops.len() > 1, t: (t0, simrt::now()), io: !fired.is_empty(), secs: self.w.o.session_secs as i64 };
        let outs: Vec<Out> = slots
            .iter()
            .map(|s| match s.borrow_mut().take() {
                Some(Ok(v)) => Out::Ok(v),
                Some(Err(x)) => Out::Err(format!("{} {:?}", x.message, x.data)),
                None => Out::Lost,
            })
            .collect();
        for o in &outs {
            ev!(ctx, "  {}", format!("{o:?}").chars().take(100).collect::<String>());
        }
        if ops.len() > 1 {
            ctx.probe("at_once");
        }
        for (o, out) in ops.iter().zip(&outs) {
            match (o, out) {
                (Op::In { s, what: What::Export(pw), .. }, Out::Ok(v)) => {
                    let ident = self.models.iter().find_map(|m| m.sessions.get(s).map(|x| m.incs[x.inc].ident));
                    if let Some(i) = ident {
                        self.exports.push((i, v["master_key"].as_str().unwrap_or_default().to_string(), pw.clone()));
                        ctx.probe("exported");
                    }
                }
                (Op::Create { how: How::Export(..), .. }, Out::Ok(_)) => ctx.probe("imported"),
                (Op::Create { overwrite: true, .. }, Out::Ok(_)) => ctx.probe("overwritten"),
                (Op::Create { ident: Some(_), .. }, Out::Err(_)) => ctx.probe("not_created"),
                (Op::Unlock { .. }, Out::Err(_)) => ctx.probe("not_unlocked"),
                (Op::Unlock { .. }, Out::Ok(_)) => ctx.nontrivial(),
                (Op::In { what: What::Delete, .. }, Out::Ok(_)) => ctx.probe("deleted"),
                (Op::In { .. }, Out::Err(_)) => ctx.probe("refused"),
                (Op::Refresh { .. }, Out::Ok(_)) => ctx.probe("refreshed"),
                _ => (),
            }
        }
        let (mut next, mut why) = (vec![], None);
        for m in &self.models {
            for order in orders(ops.len()) {
                let mut now = vec![m.clone()];
                for k in order {
                    let mut then = vec![];
                    for m in now {
                        match m.step(&ops[k], &outs[k], &e) {
                            Ok(v) => then.extend(v),
                            Err(x) => why = why.or(Some(x)),
                        }
                    }
                    now = then;
                }
                for m in now {
                    if !next.contains(&m) {
                        next.push(m);
                    }
                }
            }
        }
        if next.is_empty() {
            let x: String = why.unwrap_or_default().chars().take(900).collect();
            return Err(Fail::new("not-explained", format!("no order of {} calls explains their answers: {x}", ops.len())));
        }
        next.truncate(64);
        ctx.probe_if(next.len() > 1, "several_states");
        self.models = next;
        for m in &mut self.models {
            let now = simrt::now();
            let old: Vec<String> = m.sessions.iter().filter(|(_, x)| x.end.1 < now).map(|(k, _)| k.clone()).collect();
            for s in old {
                ctx.probe("expired");
                m.sessions.remove(&s);
                if !self.ended.contains(&s) {
                    self.ended.push(s);
                }
            }
        }
        for o in &ops {
            if let Op::Close { s } = o
                && !self.ended.contains(s)
            {
                self.ended.push(s.clone());
            }
        }
        ctx.state(simkit::rng::fnv(format!("{:?}", self.models[0].current.values().map(|i| (&self.models[0].incs[*i].ident, self.models[0].incs[*i].kv.len(), &self.models[0].incs[*i].addr)).collect::<Vec<_>>()).as_bytes()));
        Ok(())
    }

    /// What nobody should ask: it is answered, and no secret without a session.
    fn ask_anything(&mut self) -> Res {
        let ctx = self.ctx.clone();
        let m = self.any();
        let live: Vec<(String, String, bool)> = m.sessions.iter().map(|(k, v)| (k.clone(), m.incs[v.inc].id.clone(), v.held)).collect();
        let (s, id, held) = if live.is_empty() || ctx.chance(1, 3) {
            ("cd".repeat(32), m.ids.values().next().cloned().unwrap_or_default(), false)
        } else {
            ctx.pick(&live).clone()
        };
        let mut p = json!({"session_id": s, "wallet_id": id});
        let in_session = ["get_balance", "get_utxo_info", "get_transactions", "get_addresses", "get", "sign_data", "export_master_key", "create_vtt", "create_data_request", "send_transaction"];
        let k = ctx.idx(in_session.len() + 5);
        let method = match k {
            k if k < in_session.len() => {
                let more = match in_session[k] {
                    "get_transactions" | "get_addresses" => json!({"offset": ctx.below(3), "limit": ctx.below(30), "external": true}),
                    "get" => json!({"key": "k1"}),
                    "sign_data" => json!({"data": "x", "extended_pk": ctx.chance(1, 2)}),
                    "export_master_key" => json!({"password": "12345678"}),
                    "create_vtt" => json!({"fee": 1 + ctx.below(100), "fee_type": "absolute", "label": "l", "utxo_strategy": "random",
                        "outputs": [{"address": "twit1tsc9664jd23dhe0j2xsj0grzgyhlzfzgy0a4jh", "amount": "1000", "time_lock": "0"}],
                        "selected_utxos": [format!("{}:0", "12".repeat(32))], "preview": ctx.chance(1, 2)}),
                    "create_data_request" => json!({"fee": 1 + ctx.below(100), "fee_type": "weighted", "preview": ctx.chance(1, 2), "request": {
                        "data_request": {"time_lock": "0", "retrieve": [{"kind": "HTTP-GET", "url": "http://a.b/c", "script": [0x81, 0x18, 0x77], "body": [], "headers": []}],
                            "aggregate": {"filters": [], "reducer": 3}, "tally": {"filters": [], "reducer": 3}},
                        "witness_reward": "10", "witnesses": 3, "commit_and_reveal_fee": "1", "min_consensus_percentage": 51, "collateral": "2000000000"}}),
                    "send_transaction" => json!({"transaction": {"ValueTransfer": {"body": {"inputs": [], "outputs": []}, "signatures": [{}]}}}),
                    _ => json!({}),
                };
                if let (Value::Object(p), Value::Object(more)) = (&mut p, more) {
                    p.extend(more);
                }
                in_session[k]
            }
            k => {
                let (m, q) = match k - in_session.len() {
                    0 => ("create_mnemonics", json!({"length": *ctx.pick(&[12, 15, 18, 21, 24])})),
                    1 => ("validate_mnemonics", json!({"seed_source": "mnemonics", "seed_data": PHRASES[0], "backup_password": null})),
                    2 => ("run_rad_request", json!({"rad_request": {"time_lock": 0, "retrieve": [], "aggregate": {"filters": [], "reducer": 3}, "tally": {"filters": [], "reducer": 3}}})),
                    3 => ("create_wallet", json!({"name": null, "description": null, "password": "short", "seed_source": "mnemonics", "seed_data": PHRASES[0],
                        "overwrite": false, "backup_password": null, "birth_date": {"imported": 3}})),
                    _ => ("unlock_wallet", json!({"wallet_id": "ef".repeat(32), "password": "12345678"})),
                };
                p = q;
                m
            }
        };
        let asis = ctx.chance(1, 4);
        if !asis {
            for _ in 0..1 + ctx.skewed(3) {
                // A free payment would be one.
                let keep = if method == "create_wallet" { "password" } else { "fee" };
                let kept = p.get(keep).cloned();
                twist(&ctx, &mut p);
                if let (Some(v), Value::Object(o)) = (kept, &mut p) {
                    o.insert(keep.to_string(), v);
                }
            }
            ctx.fault("changed parameters");
        }
        // A transaction that is none is not to reach the node.
        let empty = p["transaction"]["ValueTransfer"]["signatures"] == json!([]);
        if empty || !matches!(p, Value::Object(_) | Value::Array(_) | Value::Null) {
            return Ok(());
        }
        ev!(ctx, "{method} {}", p.to_string().chars().take(250).collect::<String>());
        ctx.op("anything");
        let r = self.w.call(method, p.clone())?;
        if !self.w.up {
            return Ok(());
        }
        self.w.sane()?;
        if let Ok(v) = r {
            ctx.probe("answered");
            ensure!(k >= in_session.len() || (held && p["session_id"] == json!(s)), "unauthorized", "{method} {p} is answered {v} without a session");
            ensure!(!matches!(method, "create_vtt" | "create_data_request" | "send_transaction" | "create_wallet" | "unlock_wallet"), "not-refused", "{method} {p} is answered {v}");
        }
        Ok(())
    }

    fn restart(&mut self) -> Res {
        self.ctx.fault("crash");
        let mut ended = BTreeSet::new();
        for m in &mut self.models {
            ended.extend(std::mem::take(&mut m.sessions).into_keys());
        }
        self.ended.extend(ended);
        let mut v: Vec<Model> = vec![];
        for m in self.models.drain(..) {
            if !v.contains(&m) {
                v.push(m);
            }
        }
        self.models = v;
        self.w.boot()
    }

    /// Everything every wallet has.
    fn audit(&mut self) -> Res {
        self.exec(vec![Op::Infos])?;
        let ids: Vec<String> = self.any().current.keys().cloned().collect();
        for id in ids {
            let tries: BTreeSet<String> =
                self.models.iter().filter_map(|m| m.current.get(&id).map(|i| m.incs[*i].password.clone())).collect();
            for p in tries {
                self.exec(vec![Op::Unlock { id: id.clone(), password: p }])?;
            }
            let m = self.any();
            let Some(s) = m.sessions.iter().filter(|(_, x)| m.incs[x.inc].id == id && x.held && m.current.get(&id) == Some(&x.inc)).max_by_key(|(_, x)| x.end).map(|(k, _)| k.clone()) else {
                continue;
            };
            let mut what: Vec<What> = (0..4).map(|k| What::Get(format!("k{k}"))).collect();
            what.push(What::List(0, 0, 1000));
            what.push(What::List(1, 0, 1000));
            for what in what {
                self.exec(vec![Op::In { s: s.clone(), id: id.clone(), what }])?;
            }
            self.ctx.probe("audited");
        }
        self.secrets()
    }

    /// Nothing that is private is on the disk as it is.
    fn secrets(&mut self) -> Res {
        let disk: Vec<Vec<u8>> = self.w.disk.contents().into_iter().flat_map(|(k, v)| [k, v]).collect();
        let mut needles: Vec<(&str, Vec<u8>)> = self.private.iter().map(|p| ("what is private", p.as_bytes().to_vec())).collect();
        for z in seeds() {
            needles.extend(z.secrets.iter().map(|s| ("a key", s.clone())));
        }
        for (what, n) in needles {
            if n.len() < 8 {
                continue;
            }
            for b in &disk {
                if b.windows(n.len()).any(|w| w == n) {
                    return Err(Fail::new("in-the-clear", format!("{what} is in the database in the clear: {}", String::from_utf8_lossy(&n))));
                }
            }
        }
        Ok(())
    }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    match n {
        0 => vec![vec![]],
        1 => vec![vec![0]],
        2 => vec![vec![0, 1], vec![1, 0]],
        _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
    }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    let o = Opts {
        phrase: 0,
        workers: *ctx.pick(&[1usize, 2, 3]),
        v2: None,
        superblock: 5,
        history: ctx.below(6) as u32,
        gap: 3,
        batch: 20,
        own_spends: false,
        unconfirmed: ctx.chance(1, 2),
        pending_timeout: 600,
        session_secs: *ctx.pick(&[20u64, 60, 300, 3000]),
        max_weight: None,
        preempt: *ctx.pick(&[0, 3, 20]),
    };
    let secs = o.session_secs;
    let mut w = World::new(ctx, o);
    w.boot()?;
    let io = ctx.chance(1, 3);
    let mut r = Run { w, ctx: ctx.clone(), models: vec![Model::default()], exports: vec![], passwords: vec![], private: vec![], ended: vec![], io };
    if ctx.chance(7, 8) {
        for k in 0..=ctx.below(2) as usize {
            let p = r.password();
            let desc = ctx.chance(1, 2).then(|| r.secret());
            let at = PHRASES[k].to_string();
            let c = Op::Create { ident: Some((k, false)), how: How::Phrase, text: at, password: p.clone(), name: r.name(), desc, overwrite: false, birth: Value::Null };
            let mut all = vec![c];
            if ctx.chance(1, 4) {
                // The same one twice at once.
                let password = r.password();
                let text = PHRASES[k].to_string();
                let c = Op::Create { ident: Some((k, false)), how: How::Phrase, text, password, name: None, desc: None, overwrite: ctx.chance(1, 4), birth: Value::Null };
                all.push(c);
            }
            r.exec(all)?;
            let m = r.any();
            let id = m.ids[&(k, false)].clone();
            let password = m.incs[m.current[&id]].password.clone();
            r.exec(vec![Op::Unlock { id, password }])?;
        }
    }
    while ctx.more(45) {
        match ctx.weighted(&[40, 5, 1, 1, 12]) {
            0 => r.batch()?,
            1 => r.w.run_ns(ctx.range(0, secs + secs / 3) as i64 * SEC)?,
            2 => {
                r.w.crash(0);
                r.restart()?;
            }
            3 => r.audit()?,
            _ => r.ask_anything()?,
        }
    }
    r.audit()
}

/// A wallet that is made again without a name keeps its old one in the list.
pub fn known_name(ctx: &Ctx) -> Res {
    simkit::simos::reset(0);
    let o = Opts {
        phrase: 0,
        workers: 1,
        v2: None,
        superblock: 5,
        history: 0,
        gap: 3,
        batch: 20,
        own_spends: false,
        unconfirmed: false,
        pending_timeout: 600,
        session_secs: 60,
        max_weight: None,
        preempt: 0,
    };
    let mut w = World::new(ctx, o);
    w.boot()?;
    for (name, overwrite) in [(json!("old"), false), (Value::Null, true)] {
        let p = json!({"name": name, "description": null, "password": "12345678", "seed_source": "mnemonics", "seed_data": PHRASES[0],
            "overwrite": overwrite, "backup_password": null, "birth_date": null});
        w.must("create_wallet", p)?;
    }
    let v = w.must("get_wallet_infos", Value::Null)?;
    if v["infos"][0]["name"] == json!("old") {
        let e = "a wallet that was made again without a name is listed with its old one".to_string();
        return Err(Fail::new("not-explained", e).with_sig("old-name-listed"));
    }
    Ok(())
}
