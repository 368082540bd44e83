//! P24 (and P14, P15 through the client): the real producer client against a real server, through
//! a proxy that injects faults into its requests and replies.
use crate::engine::*;
use crate::model::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use opsqueue::common::StrategicMetadataMap;
use opsqueue::common::errors::E::{L, R};
use opsqueue::common::submission::SubmissionId;
use opsqueue::producer::{Client, InsertSubmission};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// Nothing is listening for this many ms (before the call starts)
    Down(u64),
    /// Answered by somebody else with this status
    Status(u16),
    /// Closed before the request is passed on
    CloseEarly,
    /// Passed on, but the reply does not come back
    LoseReply,
    /// Passed on, but the reply is cut off
    Truncate,
    /// Passed on, but the reply makes no sense
    Garbage,
    /// Passed on with a delay
    Slow(u64),
}
impl Fault {
    fn loses_reply(self) -> bool {
        matches!(self, Fault::LoseReply | Fault::Truncate | Fault::Garbage)
    }
}

struct Shared {
    script: Mutex<VecDeque<Fault>>,
    used: Mutex<Vec<Fault>>,
    forwarded: Mutex<Vec<String>>,
}

pub struct Proxy {
    pub addr: String,
    shared: Arc<Shared>,
    upstream: u16,
    task: Mutex<tokio::task::JoinHandle<()>>,
    down: std::sync::atomic::AtomicBool,
}
static NEXT_IP: AtomicU64 = AtomicU64::new(0);

async fn read_request(s: &mut tokio::net::TcpStream) -> Option<(String, Vec<u8>)> {
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    loop {
        let n = s.read(&mut tmp).await.ok()?;
        if n == 0 {
            return None;
        }
        buf.extend_from_slice(&tmp[..n]);
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&buf[..p]).to_string();
            let len: usize = head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").and_then(|v| v.trim().parse().ok())).unwrap_or(0);
            while buf.len() < p + 4 + len {
                let n = s.read(&mut tmp).await.ok()?;
                if n == 0 {
                    return None;
                }
                buf.extend_from_slice(&tmp[..n]);
            }
            return Some((head.lines().next().unwrap_or("").to_string(), buf));
        }
    }
}

async fn serve_one(mut s: tokio::net::TcpStream, upstream: u16, shared: Arc<Shared>) {
    let Some((line, bytes)) = read_request(&mut s).await else { return };
    let fault = shared.script.lock().unwrap().pop_front();
    if let Some(f) = fault {
        shared.used.lock().unwrap().push(f);
    }
    match fault {
        Some(Fault::CloseEarly) => return,
        Some(Fault::Status(c)) => {
            let _ = s.write_all(format!("HTTP/1.1 {c} X\r\nContent-Length: 4\r\nConnection: close\r\n\r\nnull").as_bytes()).await;
            let _ = s.shutdown().await;
            return;
        }
        Some(Fault::Slow(ms)) => tokio::time::sleep(Duration::from_millis(ms)).await,
        _ => {}
    }
    shared.forwarded.lock().unwrap().push(line);
    let Ok(mut up) = tokio::net::TcpStream::connect(("127.0.0.1", upstream)).await else { return };
    // ask for the connection to be closed, to know where the reply ends
    let p = bytes.windows(2).position(|w| w == b"\r\n").unwrap();
    let req = [&bytes[..p], b"\r\nConnection: close", &bytes[p..]].concat();
    if up.write_all(&req).await.is_err() {
        return;
    }
    let mut reply = vec![];
    let _ = up.read_to_end(&mut reply).await;
    match fault {
        Some(Fault::LoseReply) => return,
        Some(Fault::Truncate) => reply.truncate(reply.len().saturating_sub(3)),
        Some(Fault::Garbage) => {
            let code = String::from_utf8_lossy(&reply).split(' ').nth(1).unwrap_or("500").to_string();
            reply = format!("HTTP/1.1 {code} X\r\nContent-Type: application/json\r\nContent-Length: 7\r\nConnection: close\r\n\r\n{{\"oops\"").into_bytes();
        }
        _ => {}
    }
    let _ = s.write_all(&reply).await;
    let _ = s.shutdown().await;
}

impl Proxy {
    fn serve(addr: &str, upstream: u16, shared: Arc<Shared>, listener: tokio::net::TcpListener) -> tokio::task::JoinHandle<()> {
        let _ = addr;
        tokio::spawn(async move {
            loop {
                if let Ok((s, _)) = listener.accept().await {
                    tokio::spawn(serve_one(s, upstream, shared.clone()));
                }
            }
        })
    }
    pub async fn start(upstream: u16) -> Result<Proxy, RunError> {
        // an address of its own, so that nobody else takes the port while the proxy is down
        let n = NEXT_IP.fetch_add(1, Ordering::SeqCst) + u64::from(std::process::id()) * 7919;
        let ip = format!("127.{}.{}.{}", 1 + (n / 62500) % 250, 1 + (n / 250) % 250, 1 + n % 250);
        let listener = tokio::net::TcpListener::bind(format!("{ip}:0")).await.map_err(infra_err)?;
        let addr = format!("{ip}:{}", listener.local_addr().map_err(infra_err)?.port());
        let shared = Arc::new(Shared { script: Mutex::default(), used: Mutex::default(), forwarded: Mutex::default() });
        let task = Mutex::new(Self::serve(&addr, upstream, shared.clone(), listener));
        Ok(Proxy { addr, shared, upstream, task, down: false.into() })
    }
    /// Prepare for a call: these faults hit its requests, one after the other.
    async fn script(self: &Arc<Self>, faults: &[Fault]) {
        while self.down.load(Ordering::SeqCst) {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        *self.shared.script.lock().unwrap() = faults.iter().filter(|f| !matches!(f, Fault::Down(_))).copied().collect();
        self.shared.used.lock().unwrap().clear();
        self.shared.forwarded.lock().unwrap().clear();
        if let Some(Fault::Down(ms)) = faults.iter().find(|f| matches!(f, Fault::Down(_))) {
            self.down.store(true, Ordering::SeqCst);
            let old = std::mem::replace(&mut *self.task.lock().unwrap(), tokio::spawn(async {}));
            old.abort();
            let _ = old.await;
            let me = self.clone();
            let ms = *ms;
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                for _ in 0..200 {
                    if let Ok(l) = tokio::net::TcpListener::bind(&me.addr).await {
                        let t = Self::serve(&me.addr, me.upstream, me.shared.clone(), l);
                        *me.task.lock().unwrap() = t;
                        me.down.store(false, Ordering::SeqCst);
                        return;
                    }
                    tokio::time::sleep(Duration::from_millis(20)).await;
                }
            });
        }
    }
    fn used(&self) -> Vec<Fault> {
        self.shared.used.lock().unwrap().clone()
    }
    fn forwarded(&self) -> Vec<String> {
        self.shared.forwarded.lock().unwrap().clone()
    }
}
impl Drop for Proxy {
    fn drop(&mut self) {
        self.task.lock().unwrap().abort();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PCall {
    Insert(SubSpec),
    Par(Vec<SubSpec>),
    /// `None`: an id that does not exist
    Cancel(Option<u32>),
    Status(Option<u32>),
    /// the prefix of a submission, or some text
    Prefix(Option<u32>, String),
    Meta(BTreeMap<String, i64>),
    Count,
    Version,
    /// a consumer takes and completes (or fails) this many chunks
    Work(u32, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct POp {
    pub call: PCall,
    pub faults: Vec<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PCase {
    pub ops: Vec<POp>,
    pub ghost: u64,
}

pub struct ProducerClient {
    pub name: &'static str,
    /// weights: insert par cancel status prefix meta count version work
    pub w: [u64; 9],
    pub faults: u64,
}

fn gen_faults(rng: &mut Rng, pct: u64) -> Vec<Fault> {
    if !rng.chance(pct, 100) {
        return vec![];
    }
    (0..rng.range(1, 3))
        .map(|_| match rng.below(9) {
            0 | 1 => Fault::Down(rng.range(1, 120)),
            2 => Fault::Status(*rng.pick(&[500, 502, 503, 504])),
            3 => Fault::Status(*rng.pick(&[400, 404, 409, 403, 413])),
            4 => Fault::CloseEarly,
            5 => Fault::LoseReply,
            6 => Fault::Truncate,
            7 => Fault::Garbage,
            _ => Fault::Slow(rng.range(1, 30)),
        })
        .collect()
}

impl Prop for ProducerClient {
    type Case = PCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        "a submission was inserted, looked at again and cancelled or refused, and (where faults are injected) a fault hit a call"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> PCase {
        let g = SpecGen { max_chunks: 3, prefixes: vec!["same".into(), "a/b?c#d".into(), "x%2Fy z".into(), "é\t\u{1F600}\\".into(), "a+b&c=d".into(), "../x".into()], stored: 20, vals: vec![1, 2], keys: vec!["a".into(), "b'\"".into()], ..Default::default() };
        let n = rng.range(8, 30);
        let ops = (0..n)
            .map(|i| {
                let call = match if i < 2 { 0 } else { rng.weighted(&self.w) } {
                    0 => PCall::Insert(g.spec(rng)),
                    1 => PCall::Par((0..rng.range(2, 6)).map(|_| g.spec(rng)).collect()),
                    2 => PCall::Cancel(if rng.chance(1, 8) { None } else { Some(rng.below(64) as u32) }),
                    3 => PCall::Status(if rng.chance(1, 8) { None } else { Some(rng.below(64) as u32) }),
                    4 => PCall::Prefix(if rng.chance(1, 6) { None } else { Some(rng.below(64) as u32) }, if rng.chance(1, 2) { rng.string_edgy(6) } else { rng.pick(&g.prefixes).clone() }),
                    5 => PCall::Meta(if rng.chance(1, 8) { BTreeMap::new() } else { g.strategic(rng) }),
                    6 => PCall::Count,
                    7 => PCall::Version,
                    _ => PCall::Work(rng.range(1, 4) as u32, rng.chance(1, 4)),
                };
                let pct = if matches!(call, PCall::Par(_) | PCall::Version | PCall::Work(..)) { 0 } else { self.faults };
                POp { call, faults: gen_faults(rng, pct) }
            })
            .collect();
        PCase { ops, ghost: rng.u64() >> 1 }
    }
    fn shrink(&self, c: &PCase) -> Vec<PCase> {
        let mut out: Vec<PCase> = shrink_vec(&c.ops).into_iter().map(|ops| PCase { ops, ghost: c.ghost }).collect();
        for i in 0..c.ops.len() {
            for f in shrink_vec(&c.ops[i].faults) {
                let mut d = c.clone();
                d.ops[i].faults = f;
                out.push(d);
            }
        }
        out
    }
    fn run(&self, case: &PCase, mode: Mode) -> RunResult {
        rt().block_on(run_producer(case, mode, self.faults > 0))
    }
}

async fn all_ids(file: &str) -> Result<BTreeSet<u64>, RunError> {
    use sqlx::Connection;
    let mut c = open_reader(file).await?;
    let ids: Vec<i64> = sqlx::query_scalar("SELECT id FROM submissions UNION ALL SELECT id FROM submissions_completed UNION ALL SELECT id FROM submissions_failed UNION ALL SELECT id FROM submissions_cancelled").fetch_all(&mut c).await.map_err(infra_err)?;
    let _ = c.close().await;
    Ok(ids.into_iter().map(|i| i as u64).collect())
}

fn hang() -> RunError {
    RunError::Violation(Failure { sig: "a producer call does not return".into(), msg: "no result within 60 s".into(), sound: false, props: vec!["P24", "P26"] })
}

async fn run_producer(case: &PCase, _mode: Mode, faulty: bool) -> RunResult {
    const P: &[&str] = &["P24"];
    const MAX: u64 = 3;
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let srv = Server::start(&file, &SrvCfg { max_submissions: MAX, max_retries: 1, ..Default::default() }).await?;
    let web = srv.http();
    let proxy = Arc::new(Proxy::start(srv.port).await?);
    let client = Client::new(&proxy.addr);
    let notify = Arc::new(tokio::sync::Notify::new());
    let mut worker = Raw::connect(srv.port, notify.clone()).await?;
    let mut subs: Vec<MSub> = vec![];
    let mut inserted = false;
    let mut refused = false;
    let mut hit = !faulty;
    let limit = Duration::from_secs(60);

    for op in &case.ops {
        info.evals += 1;
        let pick = |i: &Option<u32>| i.and_then(|i| if subs.is_empty() { None } else { Some(i as usize % subs.len()) });
        proxy.script(&op.faults).await;
        let down = op.faults.iter().any(|f| matches!(f, Fault::Down(_)));
        // Faults after which a call may report an internal error
        let excuse = |used: &[Fault], retries_5xx: bool| used.iter().any(|f| f.loses_reply() || *f == Fault::CloseEarly || matches!(f, Fault::Status(c) if *c < 500 || !retries_5xx));
        match &op.call {
            PCall::Insert(spec) => {
                let before = all_ids(&file).await?;
                let body: InsertSubmission = serde_json::from_value(spec.to_json()).map_err(infra_err)?;
                let r = tokio::time::timeout(limit, client.insert_submission(&body, &Default::default())).await.map_err(|_| hang())?;
                let used = proxy.used();
                let new: BTreeSet<u64> = all_ids(&file).await?.difference(&before).copied().collect();
                let sent = proxy.forwarded().len();
                info.tag(if r.is_ok() { "insert-ok" } else { "insert-err" });
                if new.len() != sent {
                    return fail_p(&["P24", "P01"], "a submission request that reached the server did not lead to one submission", format!("{sent} requests, new {new:?}, faults {used:?}, {r:?}"));
                }
                let lost = used.iter().any(|f| f.loses_reply());
                match &r {
                    Ok(id) => {
                        let id = u64::from(*id);
                        if !new.contains(&id) {
                            return fail_p_sound(P, "a submission reported as created does not exist", format!("{id} is not among {new:?}; faults {used:?}"));
                        }
                        if !lost && new.len() != 1 {
                            return fail_p_sound(P, "one call created several submissions though no reply was lost", format!("{new:?}; faults {used:?}"));
                        }
                    }
                    Err(e) => {
                        if !lost && !new.is_empty() {
                            return fail_p_sound(P, "a submission was created but the call reports an error though no reply was lost", format!("{e:?}; {new:?}; faults {used:?}"));
                        }
                        if !excuse(&used, true) {
                            return fail_p(P, "a submission fails though there was at most a transient problem", format!("{e:?}; faults {used:?}, down {down}"));
                        }
                    }
                }
                for id in new {
                    let mut m = MSub::new(id, spec.clone(), 0);
                    let got = web.status(id).await?;
                    if let Err((mut props, sig, msg)) = m.check_status(&got) {
                        props.push("P24");
                        return fail_p(&props, format!("through the client: {sig}"), msg);
                    }
                    subs.push(m);
                    inserted = true;
                }
                hit |= !used.is_empty() || down;
            }
            PCall::Par(specs) => {
                proxy.script(&[]).await;
                let before = all_ids(&file).await?;
                let bodies: Vec<InsertSubmission> = specs.iter().map(|s| serde_json::from_value(s.to_json()).unwrap()).collect();
                let empty = Default::default();
                let rs = tokio::time::timeout(limit, futures::future::join_all(bodies.iter().map(|b| client.insert_submission(b, &empty)))).await.map_err(|_| hang())?;
                let new: BTreeSet<u64> = all_ids(&file).await?.difference(&before).copied().collect();
                let mut got = BTreeSet::new();
                for (r, spec) in rs.into_iter().zip(specs) {
                    match r {
                        Ok(id) => {
                            let id = u64::from(id);
                            if !got.insert(id) || !new.contains(&id) || before.iter().any(|b| *b > id) {
                                return fail_p_sound(&["P24", "P17"], "concurrent submissions did not get new identifiers of their own", format!("{id}: {got:?} {new:?}"));
                            }
                            let mut m = MSub::new(id, spec.clone(), 0);
                            let st = web.status(id).await?;
                            if let Err((mut props, sig, msg)) = m.check_status(&st) {
                                props.push("P24");
                                return fail_p(&props, format!("through the client, concurrently: {sig}"), msg);
                            }
                            subs.push(m);
                        }
                        Err(e) => return fail_p(P, "a concurrent submission fails", format!("{e:?}")),
                    }
                }
                if got != new {
                    return fail_p_sound(P, "concurrent calls created other submissions than they report", format!("{got:?} {new:?}"));
                }
                info.tag("parallel");
            }
            PCall::Cancel(i) => {
                let id = pick(i).map_or(case.ghost, |i| subs[i].id);
                let before = web.status(id).await?;
                let sid = SubmissionId::try_from(id).map_err(|_| infra_err("id"))?;
                let r = tokio::time::timeout(limit, client.cancel_submission(sid)).await.map_err(|_| hang())?;
                let used = proxy.used();
                let lost = used.iter().any(|f| f.loses_reply());
                let after = web.status(id).await?;
                let state = before.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or("null".into());
                info.tag(format!("cancel-{state}-{}", if r.is_ok() { "ok" } else { "err" }));
                let ctx = format!("before {before}, after {after}, faults {used:?}");
                match r {
                    Ok(()) => {
                        if state != "InProgress" || after.get("Cancelled").is_none() {
                            return fail_p_sound(&["P24", "P06"], format!("cancelling is reported as done though the submission was {state}"), ctx);
                        }
                    }
                    Err(L(nf)) => {
                        refused = true;
                        if !before.is_null() || u64::from(nf.0) != id {
                            return fail_p_sound(&["P24", "P06"], "cancelling reports an existing submission as unknown", format!("{nf:?}; {ctx}"));
                        }
                    }
                    Err(R(L(nc))) => {
                        refused = true;
                        let said = serde_json::to_value(&nc).map_err(infra_err)?;
                        if said != before && !(lost && said == after) {
                            return fail_p_sound(&["P24", "P06"], "cancelling reports something else than the state of the submission", format!("{said}; {ctx}"));
                        }
                    }
                    Err(R(R(e))) => {
                        if !excuse(&used, false) {
                            return fail_p(P, "cancelling fails though there was at most a transient problem", format!("{e:?}; {ctx}"));
                        }
                        if !lost && before != after {
                            return fail_p_sound(P, "a submission was cancelled but the call reports an error though no reply was lost", format!("{e:?}; {ctx}"));
                        }
                    }
                }
                if let Some(i) = pick(i) {
                    if after.get("Cancelled").is_some() {
                        subs[i].cancel(0);
                    }
                }
                hit |= !used.is_empty() || down;
            }
            PCall::Status(i) => {
                let id = pick(i).map_or(case.ghost, |i| subs[i].id);
                let r = tokio::time::timeout(limit, client.get_submission(SubmissionId::try_from(id).map_err(|_| infra_err("id"))?)).await.map_err(|_| hang())?;
                let used = proxy.used();
                let truth = web.status(id).await?;
                match r {
                    Ok(s) => {
                        let s = serde_json::to_value(&s).map_err(infra_err)?;
                        if s != truth {
                            return fail_p(&["P24", "P18"], "the client reports another status than the server", format!("{s} instead of {truth}; faults {used:?}"));
                        }
                    }
                    Err(e) if !excuse(&used, true) => return fail_p(P, "reading a status fails though there was at most a transient problem", format!("{e:?} {used:?}")),
                    Err(_) => {}
                }
                hit |= !used.is_empty() || down;
            }
            PCall::Prefix(i, text) => {
                let text = pick(i).and_then(|i| subs[i].spec.prefix()).unwrap_or(text.clone());
                // these cannot be part of a URL's path
                if text.is_empty() || text == "." || text == ".." {
                    continue;
                }
                let r = tokio::time::timeout(limit, client.lookup_submission_id_by_prefix(&text)).await.map_err(|_| hang())?;
                let used = proxy.used();
                let with: Vec<u64> = subs.iter().filter(|s| s.spec.prefix().as_deref() == Some(&text)).map(|s| s.id).collect();
                match r {
                    Ok(None) if with.is_empty() => {}
                    Ok(Some(id)) if with.contains(&u64::from(id)) => info.tag("prefix-hit"),
                    Ok(other) => return fail_p_sound(&["P24", "P14"], "looking up a prefix through the client gives a wrong answer", format!("{other:?} for {text:?}, which {with:?} have; faults {used:?}")),
                    Err(e) if !excuse(&used, true) => return fail_p(&["P24", "P14"], "looking up a prefix through the client fails", format!("{text:?}: {e:?} {used:?}")),
                    Err(_) => {}
                }
                hit |= !used.is_empty() || down;
            }
            PCall::Meta(m) => {
                let map: StrategicMetadataMap = m.clone().into_iter().collect();
                let (code, body) = web.meta(&json!(m)).await?;
                let r = tokio::time::timeout(limit, client.lookup_submission_ids_by_strategic_metadata(&map)).await.map_err(|_| hang())?;
                let used = proxy.used();
                let want: Vec<u64> = subs.iter().filter(|s| s.state == MState::InProgress && m.iter().all(|(k, v)| s.spec.strategic.get(k) == Some(v))).map(|s| s.id).collect::<BTreeSet<_>>().into_iter().collect();
                let ctx = format!("server says {code} {body}, model {want:?}, faults {used:?}");
                match r {
                    Ok(ids) => {
                        let ids: Vec<u64> = ids.into_iter().map(u64::from).collect();
                        if json!(ids) != body || ids != want {
                            return fail_p(&["P24", "P15"], "looking up metadata through the client gives another answer than the server", format!("{ids:?}; {ctx}"));
                        }
                        info.tag("meta-ok");
                    }
                    Err(L(tm)) => {
                        if code != 400 || tm.0 != MAX || want.len() as u64 <= MAX {
                            return fail_p(&["P24", "P15"], "looking up metadata through the client wrongly reports too many matches", format!("{tm:?}; {ctx}"));
                        }
                        info.tag("meta-too-many");
                    }
                    Err(R(e)) if !excuse(&used, false) => return fail_p(&["P24", "P15"], "looking up metadata through the client fails", format!("{e:?}; {ctx}")),
                    Err(R(_)) => {}
                }
                hit |= !used.is_empty() || down;
            }
            PCall::Count => {
                let (_, truth) = web.get("/producer/submissions/count").await?;
                let r = tokio::time::timeout(limit, client.count_submissions()).await.map_err(|_| hang())?;
                let used = proxy.used();
                let want = subs.iter().filter(|s| s.state == MState::InProgress).count();
                match r {
                    Ok(n) if json!(n) == truth && n as usize == want => {}
                    Ok(n) => return fail_p(&["P24", "P01"], "the count of submissions is wrong", format!("{n}, server {truth}, model {want}")),
                    Err(e) if !excuse(&used, true) => return fail_p(P, "counting submissions fails though there was at most a transient problem", format!("{e:?} {used:?}")),
                    Err(_) => {}
                }
            }
            PCall::Version => {
                proxy.script(&[]).await;
                let (_, truth) = web.get("/version").await?;
                let r = tokio::time::timeout(limit, client.server_version()).await.map_err(|_| hang())?;
                match r {
                    Ok(v) if Value::String(v.clone()) == truth => {}
                    other => return fail_p(P, "the client reports another server version", format!("{other:?} instead of {truth}")),
                }
            }
            PCall::Work(n, bad) => {
                let open: u64 = subs.iter().filter(|s| s.state == MState::InProgress).map(|s| s.chunks.iter().filter(|c| matches!(c, MChunk::Pending { .. })).count() as u64).sum();
                if open == 0 {
                    continue;
                }
                worker.reserve(u64::from(*n), &json!("Oldest")).await;
                match worker.recv(Duration::from_secs(20)).await.map(|g| parse(&g.msg)) {
                    Some(Parsed::Reserved { chunks, .. }) => {
                        for c in &chunks {
                            let Some(m) = subs.iter_mut().find(|m| m.id == c.sub) else { continue };
                            if *bad {
                                worker.fail((c.sub, c.idx), "bad").await;
                                m.fail(c.idx, "bad", 1, 0);
                            } else {
                                worker.complete((c.sub, c.idx), &None).await;
                                m.complete(c.idx, None, 0);
                            }
                        }
                        // wait until the results have been dealt with
                        let end = tokio::time::Instant::now() + Duration::from_secs(20);
                        for c in &chunks {
                            let Some(m) = subs.iter().find(|m| m.id == c.sub) else { continue };
                            loop {
                                let st = web.status(c.sub).await?;
                                let done = match m.state {
                                    MState::InProgress => st["InProgress"]["chunks_done"] == json!(m.done()),
                                    _ => st.get(m.state.name()).is_some(),
                                };
                                if done {
                                    break;
                                }
                                if tokio::time::Instant::now() > end {
                                    return infra(format!("results were not recorded: {st}"));
                                }
                                tokio::time::sleep(Duration::from_millis(2)).await;
                            }
                        }
                    }
                    other => return infra(format!("no chunks: {other:?}")),
                }
            }
        }
    }
    info.nontrivial = inserted && hit && (refused || subs.iter().any(|s| s.state != MState::InProgress));
    drop(worker);
    srv.stop().await;
    Ok(info)
}
