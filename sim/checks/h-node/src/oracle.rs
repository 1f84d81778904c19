//! Witnesses that resolve data requests: real RAD managers, a web that misbehaves.

use actix::prelude::*;
use simkit::*;
use simrt::{NodeId, Step};
use std::{cell::RefCell, collections::HashMap, future::Future, rc::Rc, time::Duration};
use witnet_data_structures::{
    chain::{
        RADAggregate, RADFilter, RADRequest, RADRetrieve, RADTally, RADType,
        tapi::{ActiveWips, all_wips_active},
    },
    proto::versioning::ProtocolVersion,
    radon_report::{RadonReport, ReportContext},
    witnessing::WitnessingConfig,
};
use witnet_node::actors::{
    messages::{ResolveRA, RunTally},
    rad_manager::RadManager,
};
use witnet_rad::{
    CborValue as Cbor, cbor_to_vec,
    error::RadError,
    script::{RadonCall, RadonScriptExecutionSettings, unpack_radon_call},
    types::{RadonTypes, serial_iter_decode, string::RadonString},
};

use crate::world::{SEC, ZERO};

/// What a source says to one witness.
#[derive(Clone, Debug)]
pub enum Fault {
    Status(u16),
    Refused,
    BrokenOff(usize),
    Slow(u64, u64),
    Body(Vec<u8>),
}

#[derive(Clone, Debug, Default)]
pub struct Page {
    pub body: Vec<u8>,
    pub headers: Vec<(String, Vec<u8>)>,
}

/// The pages, and who gets something else: (node, page, transport).
#[derive(Default)]
pub struct Web {
    pub pages: Vec<Page>,
    pub faults: HashMap<(NodeId, usize, Option<String>), Fault>,
    pub asked: u32,
}

pub struct Witnesses {
    pub web: Rc<RefCell<Web>>,
    pub ids: Vec<NodeId>,
    ctx: Ctx,
}

impl Witnesses {
    pub fn new(ctx: &Ctx, n: usize, transports: &[Vec<Option<&str>>]) -> Witnesses {
        simkit::simos::reset(ctx.below(1 << 32));
        simkit::simos::set_realtime_ns((ZERO + 100_000) * SEC);
        simrt::start(ctx.sub_rng());
        let web: Rc<RefCell<Web>> = Rc::default();
        let w = web.clone();
        reqwest::set_alarm(Some(|d, waker| simrt::wake_at(simrt::now() + d.as_nanos() as i64, waker)));
        reqwest::set_handler(Some(Box::new(move |r| {
            let mut w = w.borrow_mut();
            w.asked += 1;
            let Some(k) = r.url.path()[1..].parse::<usize>().ok().filter(|k| *k < w.pages.len()) else {
                return Err("no such host".to_string());
            };
            let who = simrt::current_node().expect("a node");
            let page = w.pages[k].clone();
            let (mut status, mut body, mut delay, mut body_delay) = (200, Ok(page.body), 30_000_000, 0);
            match w.faults.get(&(who, k, r.proxy.as_ref().map(|u| u.to_string()))) {
                Some(Fault::Status(s)) => status = *s,
                Some(Fault::Refused) => return Err("connection refused".to_string()),
                Some(Fault::BrokenOff(n)) => body = Err(format!("connection closed after {n} bytes")),
                Some(Fault::Slow(a, b)) => (delay, body_delay) = (*a, *b),
                Some(Fault::Body(b)) => body = Ok(b.clone()),
                None => {}
            }
            Ok(reqwest::Answer { status, headers: page.headers, body, delay: Duration::from_nanos(delay), body_delay: Duration::from_nanos(body_delay) })
        })));
        let ids: Vec<_> = (0..n).map(|_| simrt::add_node()).collect();
        for (i, id) in ids.iter().enumerate() {
            let transports = transports.get(i).cloned().unwrap_or_else(|| vec![None]);
            simrt::on_node(*id, || {
                let system = System::new();
                SystemRegistry::set(
                    RadManager::from_config(WitnessingConfig {
                        transports: transports.iter().map(|t| t.map(|t| witnet_rad::Uri::parse(t).expect("uri"))).collect(),
                        paranoid_threshold: 0.51,
                    })
                    .start(),
                );
                drop(system);
            });
        }
        Witnesses { web, ids, ctx: ctx.clone() }
    }

    /// Starts one thing on every node, a little apart, and waits for all of them.
    fn all<T: 'static, F: Future<Output = T> + 'static>(&self, limit_ns: i64, what: &str, mut f: impl FnMut(usize) -> F) -> Res<Vec<T>> {
        let slots: Vec<Rc<RefCell<Option<T>>>> = self.ids.iter().map(|_| Rc::default()).collect();
        let start = simrt::now();
        for (i, id) in self.ids.iter().enumerate() {
            let out = slots[i].clone();
            simrt::on_node(*id, || {
                let f = f(i);
                simrt::spawn(async move {
                    let r = f.await;
                    *out.borrow_mut() = Some(r);
                })
            });
        }
        let end = start + limit_ns;
        loop {
            if let Some((node, text)) = simrt::take_panics().into_iter().next() {
                return Err(Fail::new("panic", format!("node {node} panicked: {text}, while it ran {what}")));
            }
            if slots.iter().all(|s| s.borrow().is_some()) {
                break;
            }
            if let Step::Idle = simrt::step(end) {
                let i = slots.iter().position(|s| s.borrow().is_none()).unwrap();
                return Err(Fail::new("no-answer", format!("node {i} has no answer to {what} after {} ms", limit_ns / 1_000_000)));
            }
        }
        self.ctx.advance_ns((simrt::now() - start) as u64);
        Ok(slots.into_iter().map(|s| s.take().unwrap()).collect())
    }

    pub fn resolve_as(&self, request: &RADRequest, timeout: Option<Duration>, wips: &ActiveWips, protocol_version: ProtocolVersion) -> Res<Vec<RadonTypes>> {
        let limit = timeout.unwrap_or(Duration::from_secs(10)).min(Duration::from_secs(10)).as_nanos() as i64 + SEC;
        let r = self.all(limit, &format!("{request:?}"), |_| {
            let m = ResolveRA {
                rad_request: request.clone(),
                timeout,
                active_wips: wips.clone(),
                protocol_version,
                too_many_witnesses: false,
            };
            let a = RadManager::from_registry();
            async move { a.send(m).await }
        })?;
        let mut out = vec![];
        for (i, r) in r.into_iter().enumerate() {
            match r {
                Ok(Ok(v)) => out.push(v.into_inner()),
                Ok(Err(e)) => return Err(Fail::new("no-result", format!("node {i} has no result for {request:?}: {e}"))),
                Err(e) => return Err(Fail::new("no-result", format!("node {i} has no result for {request:?}: {e}"))),
            }
        }
        Ok(out)
    }

    /// The tally as the miner (first) and the validators (the others) compute it.
    pub fn tally(&self, reveals: &[Vec<u8>], script: &RADTally, min: f64, commits: usize, wips: &ActiveWips, too_many: bool) -> Res<Vec<RadonReport<RadonTypes>>> {
        let r = self.all(SEC, &format!("the tally {script:?} of {reveals:?}"), |i| {
            let reports = decode(reveals, wips);
            let m = RunTally {
                script: script.clone(),
                reports: reports.clone(),
                min_consensus_ratio: min,
                commits_count: commits,
                active_wips: wips.clone(),
                too_many_witnesses: too_many,
            };
            let a = RadManager::from_registry();
            let (script, wips) = (script.clone(), wips.clone());
            async move {
                if i == 0 {
                    a.send(m).await.map_err(|e| e.to_string())
                } else {
                    Ok(witnet_validations::validations::run_tally(reports, &script, min, commits, &wips, too_many))
                }
            }
        })?;
        r.into_iter().map(|r| r.map_err(|e| Fail::new("no-result", format!("no tally of {reveals:?}: {e}")))).collect()
    }
}
impl Drop for Witnesses {
    fn drop(&mut self) {
        simrt::shutdown();
        reqwest::set_handler(None);
    }
}

/// As miners and validators decode reveals.
pub fn decode(reveals: &[Vec<u8>], wips: &ActiveWips) -> Vec<RadonReport<RadonTypes>> {
    serial_iter_decode(
        &mut reveals.iter().map(|r| (r.as_slice(), &())),
        |_: RadError, _, _| Some(RadonReport::from_result(Err(RadError::MalformedReveal), &ReportContext::default())),
        wips,
    )
}

/// As a witness encodes what it reveals.
pub fn encode(v: &RadonTypes) -> Vec<u8> {
    use witnet_data_structures::radon_error::RadonError;
    use witnet_data_structures::radon_report::TypeLike;
    Vec::<u8>::try_from(v.clone()).unwrap_or_else(|_| RadonTypes::RadonError(RadonError::try_from(RadError::EncodeReveal).unwrap()).encode().unwrap())
}

pub fn wips(ctx: &Ctx) -> ActiveWips {
    let mut w = all_wips_active();
    if ctx.chance(1, 8) {
        // One that is not active yet.
        let name = *ctx.pick(&["WIP0017-0018-0019", "WIP0020-0021", "WIP0024", "WIP0025", "WIP0026", "WIP0027"]);
        w.active_wips.remove(name);
    }
    w
}

pub fn retrieve(kind: RADType, k: usize, script: &[Cbor]) -> RADRetrieve {
    RADRetrieve { kind, url: format!("http://source.test/{k}"), script: cbor_to_vec(&Cbor::Array(script.to_vec())).expect("cbor"), body: vec![], headers: vec![] }
}

fn int(ctx: &Ctx) -> i128 {
    match ctx.below(8) {
        0 => 0,
        1 => *ctx.pick(&[1, -1, 2, 10, 100]),
        2 => *ctx.pick(&[i128::from(i64::MIN), i128::from(i64::MAX), i128::from(u64::MAX), -i128::from(u64::MAX) - 1, i128::from(i32::MIN), i128::from(i32::MAX)]),
        3 => -(ctx.skewed(1 << 40) as i128),
        _ => ctx.skewed(300) as i128,
    }
}

fn float(ctx: &Ctx) -> f64 {
    match ctx.below(6) {
        0 => *ctx.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e308, -1e308, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        1 => ctx.below(1 << 53) as f64 / 128.0,
        _ => (ctx.below(20_000) as f64 - 10_000.0) / 100.0,
    }
}

fn text(ctx: &Ctx) -> String {
    match ctx.below(9) {
        0 => String::new(),
        1 => (*ctx.pick(&["true", "false", "TRUE", "null", "1", "-1", "0x01", "0x", "12,345.6", "1e400", "nan", "inf", " 7 ", "7\n", "\n"])).to_string(),
        2 => (*ctx.pick(&["é", "日本語", "a\u{301}", "😀😀", "\u{0}", "ﬀß", "İ"])).repeat(1 + ctx.idx(3)),
        3 => (*ctx.pick(&["$", "$.a", "$..a", "$[0]", "$.*", "$[*].a", "$.a[0:2]", "$[?(@.a>1)]", "a", "$.", "$["])).to_string(),
        4 => (*ctx.pick(&["a", "[", "(", "a*", "(a|b)*", ".", "$1", "\\d+", "^", "(?i)x", "\\", ""])).to_string(),
        5 => (0..ctx.skewed(40)).map(|_| *ctx.pick(&['a', 'b', 'c', '0', '1', ' ', ',', '.'])).collect(),
        6 => hex(&ctx.bytes(ctx.idx(8))),
        _ => (*ctx.pick(&["a", "b", "c", "key", "value"])).to_string(),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn value(ctx: &Ctx, depth: u32) -> Cbor {
    match ctx.below(if depth == 0 { 7 } else { 9 }) {
        0 => Cbor::Null,
        1 => Cbor::Bool(ctx.chance(1, 2)),
        2 => Cbor::Float(float(ctx)),
        3 => Cbor::Bytes(ctx.bytes(ctx.idx(20))),
        4 => Cbor::Text(text(ctx)),
        5 | 6 => Cbor::Integer(int(ctx)),
        7 => Cbor::Array((0..ctx.idx(4)).map(|_| value(ctx, depth - 1)).collect()),
        _ => Cbor::Map((0..ctx.idx(4)).map(|_| (Cbor::Text(text(ctx)), value(ctx, depth - 1))).collect()),
    }
}

const OPS: [&[u8]; 8] = [
    &[0x10, 0x11, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1B, 0x1D],
    &[0x20, 0x22],
    &[0x30, 0x31, 0x32, 0x34, 0x3C],
    &[0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5B, 0x5D],
    &[0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x48, 0x49, 0x4A],
    &[0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69],
    &[0x00],
    &[0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7D],
];

/// A call that might suit this value.
fn call(ctx: &Ctx, on: Option<&RadonTypes>, depth: u32) -> Cbor {
    let ty = match on {
        Some(v) if ctx.chance(15, 16) => usize::from(v.discriminant()),
        _ => ctx.idx(8),
    };
    let op = if ctx.chance(1, 60) { ctx.below(256) as u8 } else { *ctx.pick(OPS[ty]) };
    let mut args = vec![];
    match (op, on) {
        (0x11, _) if ctx.chance(1, 2) => {
            args.push(Cbor::Integer(*ctx.pick(&[5, 8, 8, 0, 0x80])));
            if ctx.chance(3, 4) {
                args.push(if ctx.chance(1, 2) { Cbor::Float(float(ctx)) } else { Cbor::Integer(int(ctx)) });
            }
        }
        (0x11 | 0x1A | 0x1D, _) if depth > 0 && ctx.chance(9, 10) => {
            let first = match on {
                Some(RadonTypes::Array(a)) => {
                    use witnet_rad::types::RadonType;
                    a.value().first().cloned()
                }
                _ => None,
            };
            args.push(Cbor::Array(calls(ctx, first, ctx.idx(3), depth - 1)));
        }
        (0x13..=0x19, _) => {
            args.push(if ctx.chance(9, 10) { Cbor::Integer(ctx.skewed(4) as i128) } else { value(ctx, 1) });
            separators(ctx, &mut args);
        }
        (0x1B, _) => args.push(Cbor::Integer(*ctx.pick(&[2, 2, 3, 3, 5, 5, 7, 7, 0x0b, 0x0b, 0, 1, 4, 6, 255]))),
        (0x31, _) => args.push(Cbor::Integer(ctx.below(16) as i128)),
        (0x43 | 0x44 | 0x46 | 0x47 | 0x49 | 0x53 | 0x55 | 0x56 | 0x57 | 0x59, _) => {
            args.push(if ctx.chance(1, 2) { Cbor::Integer(int(ctx)) } else { Cbor::Float(float(ctx)) })
        }
        (0x3C | 0x7C, _) => {
            args.push(Cbor::Integer(if ctx.chance(1, 8) { int(ctx) } else { ctx.below(20) as i128 - 8 }));
            if ctx.chance(2, 3) {
                args.push(Cbor::Integer(if ctx.chance(1, 8) { int(ctx) } else { ctx.below(20) as i128 - 8 }));
            }
        }
        (0x61..=0x67, Some(RadonTypes::Map(m))) if ctx.chance(9, 10) => {
            use witnet_rad::types::RadonType;
            let keys: Vec<String> = m.value().keys().cloned().collect();
            args.push(Cbor::Text(if keys.is_empty() { text(ctx) } else { ctx.pick(&keys).clone() }));
            separators(ctx, &mut args);
        }
        (0x75, _) => {
            let s = match on {
                Some(v @ RadonTypes::String(_)) if ctx.chance(1, 2) => {
                    use witnet_rad::types::RadonType;
                    match v {
                        RadonTypes::String(s) => s.value(),
                        _ => unreachable!(),
                    }
                }
                _ => text(ctx),
            };
            args.push(Cbor::Map([(Cbor::Text(s), value(ctx, 2)), (Cbor::Text(text(ctx)), value(ctx, 2))].into_iter().collect()));
            args.push(value(ctx, 2));
        }
        (0x72 | 0x73, _) => separators(ctx, &mut args),
        (0x76 | 0x77, _) if ctx.chance(1, 3) => {
            args.push(if ctx.chance(1, 2) { Cbor::Text(text(ctx)) } else { Cbor::Array((0..ctx.idx(3)).map(|_| Cbor::Text(text(ctx))).collect()) })
        }
        (0x7B, _) => args.extend([Cbor::Text(text(ctx)), Cbor::Text(text(ctx))]),
        (0x7D, _) => args.push(Cbor::Text(text(ctx))),
        (0x30 | 0x32 | 0x4A | 0x71, _) if ctx.chance(2, 3) => args.push(Cbor::Integer(ctx.below(5) as i128)),
        _ => {}
    }
    if ctx.chance(1, 25) {
        args = (0..ctx.idx(3)).map(|_| value(ctx, 2)).collect();
    }
    if args.is_empty() && ctx.chance(19, 20) {
        return Cbor::Integer(op.into());
    }
    args.insert(0, Cbor::Integer(op.into()));
    Cbor::Array(args)
}

fn separators(ctx: &Ctx, args: &mut Vec<Cbor>) {
    for _ in 0..ctx.skewed(3) {
        args.push(if ctx.chance(3, 4) { Cbor::Text((*ctx.pick(&[",", ".", " ", "", "'"])).to_string()) } else { value(ctx, 0) });
    }
}

/// Calls chained by what they give, as far as that is known.
fn calls(ctx: &Ctx, mut on: Option<RadonTypes>, n: usize, depth: u32) -> Vec<Cbor> {
    let mut out = vec![];
    for _ in 0..n {
        let mut c = call(ctx, on.as_ref(), depth);
        for _ in 0..3 {
            let Some(v) = &on else { break };
            let Ok(parsed) = unpack_radon_call(&c) else { break };
            match quietly(v, &parsed) {
                Ok(Ok(next)) => {
                    on = Some(next);
                    break;
                }
                Ok(Err(())) => {}
                // Let the witnesses run into it.
                Err(_) => {
                    on = None;
                    break;
                }
            }
            // One that works, mostly.
            if ctx.chance(1, 10) {
                on = None;
                break;
            }
            c = call(ctx, on.as_ref(), depth);
        }
        out.push(c);
    }
    out
}

/// What a call gives; Err if it panics.
fn quietly(v: &RadonTypes, c: &RadonCall) -> Result<Result<RadonTypes, ()>, String> {
    let mut context = ReportContext::default();
    context.set_active_wips(all_wips_active());
    let script = [c.clone()];
    simkit::catch(|| witnet_rad::script::execute_radon_script(v.clone(), &script, &mut context, RadonScriptExecutionSettings::disable_all())).map(|r| match r.map(RadonReport::into_inner) {
        Ok(RadonTypes::RadonError(_)) | Err(_) => Err(()),
        Ok(x) => Ok(x),
    })
}

fn json(ctx: &Ctx, depth: u32) -> String {
    match ctx.below(if depth == 0 { 5 } else { 10 }) {
        0 => (*ctx.pick(&["null", "true", "false", "\"\"", "{}", "[]", "1e999", "-0", "1e5", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "0.1"])).to_string(),
        1 => int(ctx).to_string(),
        2 => {
            let f = float(ctx);
            if f.is_finite() { format!("{f:?}") } else { "1.5".to_string() }
        }
        3 | 4 => serde_json::Value::String(text(ctx)).to_string(),
        5 | 6 => {
            // All alike.
            let n = ctx.skewed(6);
            let kind = ctx.below(4);
            let v: Vec<String> = (0..n)
                .map(|_| match kind {
                    0 => int(ctx).to_string(),
                    1 => format!("{:?}", ctx.below(10_000) as f64 / 100.0),
                    2 => serde_json::Value::String(text(ctx)).to_string(),
                    _ => format!("[{},{}]", json(ctx, 0), json(ctx, 0)),
                })
                .collect();
            format!("[{}]", v.join(","))
        }
        7 => format!("[{}]", (0..ctx.skewed(5)).map(|_| json(ctx, depth - 1)).collect::<Vec<_>>().join(",")),
        _ => format!(
            "{{{}}}",
            (0..ctx.skewed(5)).map(|_| format!("{}:{}", serde_json::Value::String(text(ctx)), json(ctx, depth - 1))).collect::<Vec<_>>().join(",")
        ),
    }
}

fn xml(ctx: &Ctx, depth: u32) -> String {
    let name = *ctx.pick(&["a", "b", "c:d", "_text"]);
    let attrs: String = (0..ctx.skewed(3)).map(|i| format!(" {}=\"{}\"", ["x", "y", "xmlns:c"][i as usize % 3], ctx.below(10))).collect();
    let inner: String = if depth == 0 { String::new() } else { (0..ctx.skewed(4)).map(|_| if ctx.chance(1, 3) { "text ".to_string() } else { xml(ctx, depth - 1) }).collect() };
    format!("<{name}{attrs}>{inner}</{name}>")
}

fn body(ctx: &Ctx) -> Vec<u8> {
    match ctx.below(10) {
        0 => text(ctx).into_bytes(),
        1 => ctx.bytes(ctx.idx(40)),
        2 => {
            let depth = if ctx.chance(1, 6) { 30 } else { 3 };
            let s = if depth == 30 { format!("{}{}", "<a>".repeat(30), "</a>".repeat(30)) } else { xml(ctx, 3) };
            s.into_bytes()
        }
        3 if ctx.chance(1, 10) => format!("{}1{}", "[".repeat(200), "]".repeat(200)).into_bytes(),
        4 if ctx.chance(1, 4) => format!("[{}]", (0..200).map(|i| (i / 150).to_string()).collect::<Vec<_>>().join(",")).into_bytes(),
        5 => int(ctx).to_string().into_bytes(),
        _ => json(ctx, 3).into_bytes(),
    }
}

/// A witness always has a result.
pub fn o01(ctx: &Ctx) -> Res {
    let n = 1 + ctx.idx(4);
    let proxies: [&[Option<&str>]; 4] = [&[None], &[None], &[None, Some("http://proxy.test:1/")], &[Some("http://proxy.test:1/"), Some("http://proxy.test:2/")]];
    let transports: Vec<Vec<Option<&str>>> = (0..n).map(|_| if ctx.chance(1, 6) { ctx.pick(&proxies).to_vec() } else { vec![None] }).collect();
    let wit = Witnesses::new(ctx, n, &transports);
    let wips = wips(ctx);
    while ctx.more(8) {
        let sources = ctx.skewed(4) as usize + usize::from(ctx.chance(31, 32));
        {
            let mut w = wit.web.borrow_mut();
            w.pages.clear();
            w.faults.clear();
        }
        let mut retrieves = vec![];
        let mut random = false;
        for k in 0..sources {
            // Sources often say much the same.
            let page = if k > 0 && ctx.chance(1, 2) {
                wit.web.borrow().pages[k - 1].clone()
            } else {
                Page { body: body(ctx), headers: (0..ctx.skewed(3)).map(|_| ((*ctx.pick(&["x", "Date", "content-type"])).to_string(), if ctx.chance(1, 3) { ctx.bytes(ctx.idx(6)) } else { text(ctx).into_bytes() })).collect() }
            };
            let kind = ctx
                .pick(&[RADType::HttpGet, RADType::HttpGet, RADType::HttpGet, RADType::HttpGet, RADType::HttpPost, RADType::HttpHead, RADType::Rng, RADType::Unknown])
                .clone();
            random |= kind == RADType::Rng;
            let start = RadonTypes::from(RadonString::from(String::from_utf8_lossy(&page.body).into_owned()));
            let mut r = if k > 0 && ctx.chance(1, 2) {
                let last: &RADRetrieve = &retrieves[k - 1];
                RADRetrieve { url: format!("http://source.test/{k}"), ..last.clone() }
            } else {
                let len = ctx.skewed(7) as usize;
                retrieve(kind, k, &calls(ctx, Some(start), len, 3))
            };
            match ctx.below(24) {
                0 => r.script = ctx.bytes(ctx.idx(12)),
                1 if !r.script.is_empty() => {
                    let i = ctx.idx(r.script.len());
                    r.script[i] = ctx.below(256) as u8;
                }
                2 => r.url = text(ctx),
                3 => r.headers = (0..ctx.idx(3)).map(|_| (text(ctx), text(ctx))).collect(),
                4 => r.body = ctx.bytes(ctx.idx(20)),
                _ => {}
            }
            random |= r.kind == RADType::Rng;
            wit.web.borrow_mut().pages.push(page);
            retrieves.push(r);
        }
        let filters = |ctx: &Ctx| -> Vec<RADFilter> {
            (0..ctx.skewed(3))
                .map(|_| RADFilter {
                    op: *ctx.pick(&[5, 8, 5, 8, 0, 300]),
                    args: match ctx.below(4) {
                        0 => vec![],
                        1 => ctx.bytes(ctx.idx(4)),
                        _ => cbor_to_vec(&Cbor::Float(float(ctx))).unwrap(),
                    },
                })
                .collect()
        };
        let request = RADRequest {
            time_lock: 0,
            retrieve: retrieves,
            aggregate: RADAggregate { filters: filters(ctx), reducer: *ctx.pick(&[2, 2, 3, 3, 5, 5, 0xb, 0xb, 7, 0, 1000]) },
            tally: RADTally { filters: filters(ctx), reducer: *ctx.pick(&[2, 2, 3, 3, 5, 5, 0xb, 0xb, 7, 0, 1000]) },
        };
        let timeout = *ctx.pick(&[None, None, Some(2u64), Some(8), Some(60)]);
        let mut clean = vec![true; n];
        for i in 0..n {
            for k in 0..sources {
                if ctx.chance(1, 6) {
                    let f = match ctx.below(6) {
                        0 => Fault::Status(*ctx.pick(&[404, 500, 204, 301, 100, 999])),
                        1 => Fault::Refused,
                        2 => Fault::BrokenOff(ctx.idx(100)),
                        3 => Fault::Slow(ctx.below(12_000_000_000), ctx.below(12_000_000_000)),
                        4 => {
                            let b = wit.web.borrow().pages[k].body.clone();
                            Fault::Body(b[..ctx.idx(b.len() + 1)].to_vec())
                        }
                        _ => Fault::Body(body(ctx)),
                    };
                    ctx.fault(match f {
                        Fault::Status(_) => "http status",
                        Fault::Refused => "connection refused",
                        Fault::BrokenOff(_) => "body broken off",
                        Fault::Slow(..) => "slow source",
                        Fault::Body(_) => "another body",
                    });
                    ctx.nontrivial();
                    let t = transports[i][ctx.idx(transports[i].len())].map(|s| s.to_string());
                    wit.web.borrow_mut().faults.insert((wit.ids[i], k, t), f);
                    clean[i] = false;
                }
            }
        }
        ctx.op("resolve");
        ev!(ctx, "{request:?} of {:?}, timeout {timeout:?}", wit.web.borrow().pages);
        let results = wit.resolve_as(&request, timeout.map(Duration::from_secs), &wips, *ctx.pick(&[ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1]))?;
        let bytes: Vec<Vec<u8>> = match simkit::catch(|| results.iter().map(encode).collect()) {
            Ok(b) => b,
            Err(e) => return Err(Fail::new("panic", format!("encoding {results:?} panics: {e}"))),
        };
        let plain = |i: usize| clean[i] && transports[i].len() == 1;
        let agree: Vec<usize> = (0..n).filter(|i| plain(*i) && !random).collect();
        for w in agree.windows(2) {
            ensure_eq!(bytes[w[0]], bytes[w[1]], "witnesses-differ", "what witnesses {} and {} reveal for {request:?}: {:?} and {:?}", w[0], w[1], results[w[0]], results[w[1]]);
            ctx.probe("witnesses_agree");
        }
        for (r, b) in results.iter().zip(&bytes) {
            ctx.state(simkit::rng::fnv(b));
            let error = matches!(r, RadonTypes::RadonError(_));
            ctx.probe(if error { "result_error" } else { "result_value" });
            let back = match simkit::catch(|| RadonTypes::try_from(b.as_slice())) {
                Ok(Ok(v)) => v,
                e => return Err(Fail::new("not-decodable", format!("{r:?} is revealed as {} and does not decode: {e:?}", hex(b)))),
            };
            ensure_eq!(hex(&encode(&back)), hex(b), "not-stable", "{r:?} is revealed, read and encoded again");
        }
        // What they reveal, and what bad witnesses reveal instead.
        let mut reveals = bytes.clone();
        for r in &mut reveals {
            match ctx.below(12) {
                0 => *r = ctx.bytes(ctx.idx(20)),
                1 if !r.is_empty() => {
                    let i = ctx.idx(r.len());
                    r[i] = ctx.below(256) as u8;
                }
                2 => r.truncate(ctx.idx(r.len() + 1)),
                3 => *r = hostile(ctx, 3),
                _ => continue,
            }
            ctx.fault("hostile reveal");
        }
        if ctx.chance(1, 3) {
            let h = hostile(ctx, 2);
            for _ in 0..ctx.skewed(4) {
                reveals.push(if ctx.chance(1, 2) { h.clone() } else { hostile(ctx, 2) });
            }
        }
        let commits = reveals.len() + ctx.skewed(3) as usize;
        let min = ctx.range(51, 99) as f64 / 100.0;
        let tallies = wit.tally(&reveals, &request.tally, min, commits, &wips, ctx.chance(1, 20))?;
        ctx.op("tally");
        let of = |r: &RadonReport<RadonTypes>| (encode(&r.result), format!("{:?}", r.context.stage));
        let first = of(&tallies[0]);
        for t in &tallies[1..] {
            ensure_eq!(of(t), first, "tallies-differ", "what the miner and a validator make of {:?}", reveals.iter().map(|r| hex(r)).collect::<Vec<_>>());
        }
    }
    Ok(())
}

/// Bytes that a bad witness might reveal.
fn hostile(ctx: &Ctx, depth: u32) -> Vec<u8> {
    match ctx.below(if depth == 0 { 5 } else { 8 }) {
        0 => cbor_to_vec(&value(ctx, 2)).unwrap_or_default(),
        1 => vec![0xd8, 39, 0x81, 0x18, ctx.below(256) as u8],
        2 => vec![0xd8, 39, *ctx.pick(&[0x80, 0x81, 0x9f, 0xa0, 0x00, 0xf6])],
        3 => vec![0xf9, ctx.below(256) as u8, ctx.below(256) as u8],
        4 => cbor_to_vec(&Cbor::Float(float(ctx))).unwrap(),
        5 | 6 => {
            let k = ctx.idx(4);
            let mut v = vec![0x80 + k as u8];
            for _ in 0..k {
                v.extend(hostile(ctx, depth - 1));
            }
            v
        }
        _ => {
            let k = ctx.idx(3);
            let mut v = vec![0xa0 + k as u8];
            for i in 0..k {
                v.extend([0x61, b'a' + i as u8]);
                v.extend(hostile(ctx, depth - 1));
            }
            v
        }
    }
}
