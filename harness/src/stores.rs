//! P20: the object store client on every kind of backend that works offline (memory, files, HTTP,
//! Google Cloud Storage against a local stand-in), with injected faults, against a map.
use crate::engine::*;
use crate::rng::Rng;
use crate::util::*;
use futures::{StreamExt, TryStreamExt};
use opsqueue::object_store::{BackoffConfig, ChunkType, ObjectStoreClient, RetryConfig};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use ux::u63;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Backend {
    Memory,
    File,
    Http,
    Gcs,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// Answered with this status
    Status(u16),
    /// Connection closed without an answer; the request had no effect
    Close,
    /// As above, but the request had an effect
    CloseLate,
    /// The body of the answer is cut off
    Cut,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    /// Store a stream of chunks with these sizes; the stream fails before the given position
    Store { client: u8, prefix: u8, out: bool, sizes: Vec<u32>, breaks: Option<u8>, faults: Vec<Bad>, fault_at: u8 },
    /// Several streams at the same time, one per prefix
    StoreMany { client: u8, out: bool, sizes: Vec<u32>, prefixes: BTreeSet<u8> },
    StoreOne { client: u8, prefix: u8, out: bool, idx: u64, size: u32, faults: Vec<Bad> },
    Fetch { client: u8, prefix: u8, out: bool, count: u64, faults: Vec<Bad>, fault_at: u8 },
    FetchOne { client: u8, prefix: u8, out: bool, idx: u64, faults: Vec<Bad> },
    /// An object disappears behind the client's back
    Lose { pick: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreCase {
    pub backend: Backend,
    pub bases: Vec<String>,
    pub prefixes: Vec<String>,
    pub retries: usize,
    pub ops: Vec<SOp>,
}

type Objects = BTreeMap<String, Vec<u8>>;
#[derive(Default)]
struct Web {
    objects: Mutex<Objects>,
    /// faults for the coming requests, `None` for a request that goes well
    script: Mutex<VecDeque<Option<Bad>>>,
    requests: Mutex<u64>,
}

async fn answer(mut s: tokio::net::TcpStream, web: Arc<Web>) {
    let mut buf = vec![];
    let mut tmp = vec![0u8; 1 << 17];
    let head_end = loop {
        let Ok(n) = s.read(&mut tmp).await else { return };
        if n == 0 {
            return;
        }
        buf.extend_from_slice(&tmp[..n]);
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p;
        }
    };
    let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
    let header = |name: &str| head.lines().find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.trim().to_string()));
    let len: usize = header("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
    if header("expect").is_some() {
        let _ = s.write_all(b"HTTP/1.1 100 Continue\r\n\r\n").await;
    }
    while buf.len() < head_end + 4 + len {
        let Ok(n) = s.read(&mut tmp).await else { return };
        if n == 0 {
            return;
        }
        buf.extend_from_slice(&tmp[..n]);
    }
    let body = buf[head_end + 4..head_end + 4 + len].to_vec();
    let mut line = head.lines().next().unwrap_or("").split(' ');
    let (method, target) = (line.next().unwrap_or("").to_string(), line.next().unwrap_or("").to_string());
    let path = target.split('?').next().unwrap_or("").to_string();
    *web.requests.lock().unwrap() += 1;
    let fault = web.script.lock().unwrap().pop_front().flatten();
    match fault {
        Some(Bad::Status(c)) => {
            let _ = s.write_all(format!("HTTP/1.1 {c} X\r\nContent-Length: 4\r\nConnection: close\r\n\r\noops").as_bytes()).await;
            let _ = s.shutdown().await;
            return;
        }
        Some(Bad::Close) => return,
        _ => {}
    }
    let tag = |b: &[u8]| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        b.hash(&mut h);
        format!("{:x}", h.finish())
    };
    let mut send_body = true;
    let (status, extra, reply) = match method.as_str() {
        "PUT" => {
            let t = tag(&body);
            web.objects.lock().unwrap().insert(path, body);
            (200, format!("ETag: \"{t}\"\r\n"), vec![])
        }
        "GET" | "HEAD" => {
            send_body = method == "GET";
            let found = web.objects.lock().unwrap().get(&path).cloned();
            match found {
                None => (404, String::new(), b"no such object".to_vec()),
                Some(b) => {
                    let t = tag(&b);
                    let common = format!("ETag: \"{t}\"\r\nLast-Modified: Tue, 01 Sep 2026 10:00:00 GMT\r\n");
                    let range = header("range").and_then(|r| r.strip_prefix("bytes=").map(str::to_string)).and_then(|r| {
                        let (a, z) = r.split_once('-')?;
                        let a: usize = a.parse().ok()?;
                        let z: usize = if z.is_empty() { b.len().checked_sub(1)? } else { z.parse::<usize>().ok()?.min(b.len().checked_sub(1)?) };
                        (a <= z).then_some((a, z))
                    });
                    match range {
                        Some((a, z)) => (206, format!("{common}Content-Range: bytes {a}-{z}/{}\r\n", b.len()), b[a..=z].to_vec()),
                        None => (200, common, b),
                    }
                }
            }
        }
        _ => (405, String::new(), vec![]),
    };
    if fault == Some(Bad::CloseLate) {
        return;
    }
    let mut out = format!("HTTP/1.1 {status} X\r\n{extra}Content-Length: {}\r\nConnection: close\r\n\r\n", reply.len()).into_bytes();
    if send_body {
        let n = if fault == Some(Bad::Cut) { reply.len() / 2 } else { reply.len() };
        out.extend_from_slice(&reply[..n]);
    }
    let _ = s.write_all(&out).await;
    let _ = s.shutdown().await;
}

/// The path a prefix names
fn norm(base: &str, prefix: &str) -> String {
    format!("{base}/{prefix}").split('/').filter(|p| !p.is_empty()).collect::<Vec<_>>().join("/")
}
fn content(rng: &mut Rng, size: u32) -> Vec<u8> {
    let mut b: Vec<u8> = vec![0; size as usize];
    for c in b.chunks_mut(8) {
        let r = rng.u64().to_le_bytes();
        c.copy_from_slice(&r[..c.len()]);
    }
    b
}

pub struct Stores;
fn sizes(rng: &mut Rng) -> u32 {
    match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 70_000,
        3 if rng.chance(1, 8) => 3_000_000,
        _ => rng.below(40) as u32 + 8,
    }
}
fn faults(rng: &mut Rng, b: Backend) -> Vec<Bad> {
    if !matches!(b, Backend::Http | Backend::Gcs) || rng.chance(1, 2) {
        return vec![];
    }
    (0..rng.range(1, 5)).map(|_| *rng.pick(&[Bad::Status(503), Bad::Status(500), Bad::Status(403), Bad::Status(400), Bad::Close, Bad::CloseLate, Bad::Cut, Bad::Cut])).collect()
}
impl Prop for Stores {
    type Case = StoreCase;
    fn name(&self) -> &'static str {
        "object-stores"
    }
    fn rule(&self) -> &'static str {
        "at least two chunks were stored and fetched, and a fault, a missing object or a broken stream occurred"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> StoreCase {
        let backend = *rng.pick(&[Backend::Memory, Backend::File, Backend::File, Backend::Http, Backend::Http, Backend::Http, Backend::Gcs, Backend::Gcs]);
        let mut prefixes: Vec<String> = vec!["p".into(), "p/q".into()];
        for _ in 0..rng.below(4) {
            let s = match rng.below(9) {
                0 => rng.string_edgy(8),
                1 => format!("{}/", rng.pick(&prefixes)),
                2 => format!("{}//{}", rng.pick(&prefixes), rng.ident(3)),
                3 => rng.pick(&["..", ".", "../p", "p/../q", "P", "p ", " p", "p%2Fq", "p\\q", "p.", "0-in.bin", "0", "p/0", "p/1"]).to_string(),
                4 => uuid::Uuid::from_u128(u128::from(rng.u64()) << 64 | u128::from(rng.u64())).to_string(),
                5 => format!("{}{}", rng.pick(&prefixes), rng.below(12)),
                6 => format!("{}{}", "long/".repeat(rng.range(8, 40) as usize), rng.below(2)),
                7 => format!("{}{}", "n".repeat(*rng.pick(&[40, 64, 128, 200])), rng.below(2)),
                _ => rng.ident(4),
            };
            if !s.contains(['\n', '\t']) && norm("", &s) != "" {
                prefixes.push(s);
            }
        }
        let np = prefixes.len() as u64;
        let mut ops = vec![];
        for _ in 0..rng.range(3, 14) {
            let (client, out) = (u8::from(rng.chance(1, 4)), rng.chance(1, 3));
            let prefix = if rng.chance(2, 3) { rng.below(2) } else { rng.below(np) } as u8;
            let f = faults(rng, backend);
            ops.push(match rng.below(12) {
                0..=3 => {
                    let n = if rng.chance(1, 60) { rng.range(200, 255) } else { *rng.pick(&[0u64, 1, 2, 3, 5, 9, 12, 30]) };
                    let sizes: Vec<u32> = (0..n).map(|_| if n > 100 { rng.below(9) as u32 } else { sizes(rng) }).collect();
                    let breaks = rng.chance(1, 4).then(|| rng.below(n + 1) as u8);
                    SOp::Store { client, prefix, out, sizes, breaks, faults: f, fault_at: rng.below(n + 1) as u8 }
                }
                4 => SOp::StoreMany { client, out, sizes: (0..rng.range(1, 6)).map(|_| sizes(rng)).collect(), prefixes: (0..np as u8).filter(|_| rng.chance(1, 2)).collect() },
                5 => SOp::StoreOne { client, prefix, out, idx: *rng.pick(&[0, 1, 2, 10, 11, 12, 257, 258, 65_538, (1 << 32) + 2, i64::MAX as u64]), size: sizes(rng), faults: f },
                6 | 7 => SOp::FetchOne { client, prefix, out, idx: *rng.pick(&[0, 1, 2, 3, 10, 11, 12, 257, 258, 65_538, (1 << 32) + 2, i64::MAX as u64]), faults: f },
                8 => SOp::Lose { pick: rng.u64() },
                _ => {
                    let count = *rng.pick(&[0, 1, 2, 3, 5, 9, 12, 13, 30]);
                    SOp::Fetch { client, prefix, out, count, faults: f, fault_at: rng.below(count + 1) as u8 }
                }
            });
        }
        let bases = rng.pick(&[vec!["", "other"], vec!["base", "base/deep"], vec!["a/b", "a"], vec!["b%20c", "x"], vec!["same", "same"]]).iter().map(|s| s.to_string()).collect();
        StoreCase { backend, bases, prefixes, retries: *rng.pick(&[0, 2, 3]), ops }
    }
    fn shrink(&self, c: &StoreCase) -> Vec<StoreCase> {
        let mut out: Vec<_> = shrink_vec(&c.ops).into_iter().map(|ops| StoreCase { ops, ..c.clone() }).collect();
        for i in 0..c.ops.len() {
            let mut with = |o: SOp| {
                let mut d = c.clone();
                d.ops[i] = o;
                out.push(d);
            };
            match &c.ops[i] {
                SOp::Store { client, prefix, out, sizes, breaks, faults, fault_at } => {
                    for s in shrink_vec(sizes) {
                        with(SOp::Store { client: *client, prefix: *prefix, out: *out, breaks: breaks.map(|b| b.min(s.len() as u8)), fault_at: (*fault_at).min(s.len() as u8), sizes: s, faults: faults.clone() });
                    }
                    for f in shrink_vec(faults) {
                        with(SOp::Store { client: *client, prefix: *prefix, out: *out, sizes: sizes.clone(), breaks: *breaks, faults: f, fault_at: *fault_at });
                    }
                }
                SOp::Fetch { client, prefix, out, count, faults, fault_at } => {
                    for f in shrink_vec(faults) {
                        with(SOp::Fetch { client: *client, prefix: *prefix, out: *out, count: *count, faults: f, fault_at: *fault_at });
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn run(&self, case: &StoreCase, _: Mode) -> RunResult {
        rt().block_on(run_stores(case))
    }
}

/// What may be found under a key: one of these
type May = BTreeSet<Option<Vec<u8>>>;
type Key = (String, u64, bool);

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() { walk(&e.path(), out) } else { out.push(e.path()) }
    }
}

async fn run_stores(case: &StoreCase) -> RunResult {
    const P: &[&str] = &["P20"];
    let mut info = CaseInfo::default();
    let mut rng = Rng::new(case.ops.len() as u64 * 31 + case.retries as u64);
    let dir = Scratch::new();
    // deep enough for a path with ".." in it to stay in the scratch directory
    let root = dir.path().join("d1/d2/d3/store");
    std::fs::create_dir_all(&root).map_err(infra_err)?;
    let web = Arc::new(Web::default());
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(infra_err)?;
    let port = listener.local_addr().map_err(infra_err)?.port();
    let w = web.clone();
    let server = tokio::spawn(async move {
        loop {
            if let Ok((s, _)) = listener.accept().await {
                tokio::spawn(answer(s, w.clone()));
            }
        }
    });
    let retry = || RetryConfig { backoff: BackoffConfig { init_backoff: Duration::from_millis(1), max_backoff: Duration::from_millis(2), base: 2.0 }, max_retries: case.retries, retry_timeout: Duration::from_secs(30) };
    let key = format!(r#"{{"private_key":"x","private_key_id":"x","client_email":"x","disable_oauth":true,"gcs_base_url":"http://127.0.0.1:{port}"}}"#);
    let opt = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let mut clients = vec![];
    let mut bases = vec![];
    for b in &case.bases {
        let (url, options) = match case.backend {
            Backend::Memory => (format!("memory:///{b}"), vec![]),
            Backend::File => (format!("file://{}/{b}", root.display()), vec![]),
            Backend::Http => (format!("http://127.0.0.1:{port}/{b}"), opt(&[("ALLOW_HTTP", "true"), ("unknown", "1")])),
            Backend::Gcs => (format!("gs://bucket/{b}"), opt(&[("service_account_key", &key), ("allow_http", "true"), ("unknown", "1")])),
        };
        match ObjectStoreClient::new_with_retry(&url, options, retry()) {
            Ok(c) => {
                info.evals += 1;
                if c.url() != url {
                    return fail_p_sound(P, "a store client reports another URL", format!("{} instead of {url}", c.url()));
                }
                clients.push(c)
            }
            Err(e) => return fail_p_sound(P, "a store cannot be opened", format!("{url}: {e:?}")),
        }
        bases.push(b.clone());
    }
    // clients of different memory stores share nothing
    let path = |client: u8, prefix: u8| {
        let p = norm(&bases[client as usize].replace("%20", " "), &case.prefixes[prefix as usize]);
        if case.backend == Backend::Memory { format!("{client}:{p}") } else { p }
    };
    // objects whose name is also needed as a directory: a file system cannot have both
    let clash = |p: &str, model: &BTreeMap<Key, May>| {
        case.backend == Backend::File && model.keys().any(|(q, i, o)| {
            let name = format!("{q}/{i}-{}.bin", if *o { "out" } else { "in" });
            format!("{p}/").starts_with(&format!("{name}/"))
        })
    };
    let file_dir_clash = case.backend == Backend::File && case.prefixes.iter().any(|p| p.contains(".bin"));
    let mut model: BTreeMap<Key, May> = BTreeMap::new();
    let may = |m: &BTreeMap<Key, May>, k: &Key| m.get(k).cloned().unwrap_or_else(|| BTreeSet::from([None]));
    let ct = |o: bool| if o { ChunkType::Output } else { ChunkType::Input };
    let (mut stored, mut fetched, mut trouble) = (0, 0, 0);
    // after how many requests that fail in this way a call gives up
    let transient = |b: &Bad| !matches!(b, Bad::Status(400..=499));
    macro_rules! bad {
        ($sig:expr, $($a:tt)*) => { return fail_p_sound(P, $sig, format!($($a)*)) };
    }
    for op in &case.ops {
        *web.requests.lock().unwrap() = 0;
        web.script.lock().unwrap().clear();
        match op {
            SOp::Store { client, prefix, out, sizes, breaks, faults, fault_at } => {
                let p = path(*client, *prefix);
                if clash(&p, &model) || file_dir_clash {
                    continue;
                }
                let n = sizes.len();
                let data: Vec<Vec<u8>> = sizes.iter().map(|s| content(&mut rng, *s)).collect();
                let at = *fault_at as usize;
                if !faults.is_empty() && at < n {
                    let mut s = web.script.lock().unwrap();
                    s.extend(std::iter::repeat_n(None, at));
                    s.extend(faults.iter().map(|f| Some(*f)));
                }
                let broken = breaks.map(usize::from);
                let c2 = data.clone();
                let stream = futures::stream::iter((0..=n).filter_map(move |i| {
                    if Some(i) == broken {
                        Some(Err(anyhow::anyhow!("source breaks")))
                    } else {
                        c2.get(i).map(|d| Ok(d.clone()))
                    }
                }))
                .then(|x| async move {
                    tokio::task::yield_now().await;
                    x
                });
                let r = clients[*client as usize].store_chunks(&case.prefixes[*prefix as usize], ct(*out), stream).await;
                info.evals += 1;
                // a request that failed may have had an effect or not; what went well has
                let hit = !faults.is_empty() && at < n && broken.is_none_or(|b| at < b);
                match &r {
                    Ok(k) => {
                        if broken.is_some() {
                            bad!("a stream of chunks that broke counts as stored", "{op:?}");
                        }
                        if u64::from(*k) != n as u64 {
                            bad!("the number of stored chunks is wrong", "{k} instead of {n}: {op:?}");
                        }
                        for (i, d) in data.into_iter().enumerate() {
                            model.insert((p.clone(), i as u64, *out), BTreeSet::from([Some(d)]));
                            stored += 1;
                        }
                    }
                    Err(e) => {
                        if broken.is_none() && !hit {
                            bad!("storing chunks fails for no reason", "{e:?}: {op:?}");
                        }
                        trouble += 1;
                        for (i, d) in data.into_iter().enumerate() {
                            let k = (p.clone(), i as u64, *out);
                            let mut m = may(&model, &k);
                            m.insert(Some(d));
                            model.insert(k, m);
                        }
                        info.tag("store-failed");
                    }
                }
                if hit && broken.is_none() {
                    let first_bad = faults.iter().position(|f| !transient(f));
                    // (a cut-off reply to a PUT has no body to cut: it goes well)
                    let run = faults.iter().take_while(|f| transient(f) && **f != Bad::Cut).count();
                    info.evals += 1;
                    if r.is_err() && first_bad.is_none() && run <= case.retries && faults.len() <= case.retries {
                        bad!("a transient failure is not retried as configured", "{} retries, {:?}: {r:?}", case.retries, faults);
                    }
                    if r.is_ok() && (first_bad == Some(0) || run > case.retries) {
                        bad!("a failed write counts as stored, or is retried more than configured", "{} retries, {:?}", case.retries, faults);
                    }
                }
            }
            SOp::StoreMany { client, out, sizes, prefixes } => {
                let mut paths = BTreeSet::new();
                let mut todo = vec![];
                for x in prefixes {
                    let p = path(*client, *x);
                    if !clash(&p, &model) && !file_dir_clash && paths.insert(p.clone()) {
                        todo.push((*x, p, sizes.iter().map(|s| content(&mut rng, *s)).collect::<Vec<_>>()));
                    }
                }
                let rs = futures::future::join_all(todo.iter().map(|(x, _, d)| {
                    let s = futures::stream::iter(d.clone().into_iter().map(Ok::<_, anyhow::Error>));
                    clients[*client as usize].store_chunks(&case.prefixes[*x as usize], ct(*out), s)
                }))
                .await;
                for (r, (_, p, d)) in rs.into_iter().zip(todo) {
                    info.evals += 1;
                    match r {
                        Ok(k) if u64::from(k) == d.len() as u64 => {}
                        r => bad!("storing chunks at the same time fails", "{r:?}"),
                    }
                    for (i, d) in d.into_iter().enumerate() {
                        model.insert((p.clone(), i as u64, *out), BTreeSet::from([Some(d)]));
                        stored += 1;
                    }
                }
            }
            SOp::StoreOne { client, prefix, out, idx, size, faults } => {
                let p = path(*client, *prefix);
                if clash(&p, &model) || file_dir_clash {
                    continue;
                }
                let d = content(&mut rng, *size);
                web.script.lock().unwrap().extend(faults.iter().map(|f| Some(*f)));
                let r = clients[*client as usize].store_chunk(&case.prefixes[*prefix as usize], u63::new(*idx).into(), ct(*out), d.clone()).await;
                let k = (p, *idx, *out);
                info.evals += 1;
                match r {
                    Ok(()) => {
                        model.insert(k, BTreeSet::from([Some(d)]));
                        stored += 1;
                    }
                    Err(e) => {
                        if faults.is_empty() {
                            bad!("storing a chunk fails for no reason", "{e:?}: {op:?}");
                        }
                        trouble += 1;
                        let mut m = may(&model, &k);
                        m.insert(Some(d));
                        model.insert(k, m);
                    }
                }
            }
            SOp::FetchOne { client, prefix, out, idx, faults } => {
                let k = (path(*client, *prefix), *idx, *out);
                web.script.lock().unwrap().extend(faults.iter().map(|f| Some(*f)));
                let r = clients[*client as usize].retrieve_chunk(&case.prefixes[*prefix as usize], u63::new(*idx).into(), ct(*out)).await;
                let m = may(&model, &k);
                info.evals += 1;
                match r {
                    Ok(b) => {
                        if !m.contains(&Some(b.clone())) {
                            bad!("a fetched chunk is not what was stored", "{k:?}: {} bytes {:?}, stored: {:?}", b.len(), &b[..b.len().min(20)], show(&m));
                        }
                        model.insert(k, BTreeSet::from([Some(b)]));
                        fetched += 1;
                    }
                    Err(e) => {
                        trouble += 1;
                        if !m.contains(&None) && faults.is_empty() {
                            bad!("a stored chunk cannot be fetched", "{k:?}: {e:?}");
                        }
                    }
                }
            }
            SOp::Fetch { client, prefix, out, count, faults, fault_at } => {
                let p = path(*client, *prefix);
                let at = u64::from(*fault_at);
                if !faults.is_empty() && at < *count {
                    let mut s = web.script.lock().unwrap();
                    s.extend(std::iter::repeat_n(None, at as usize));
                    s.extend(faults.iter().map(|f| Some(*f)));
                }
                let hit = !faults.is_empty() && at < *count;
                let items: Vec<Result<Vec<u8>, _>> = clients[*client as usize].retrieve_chunks(case.prefixes[*prefix as usize].clone(), u63::new(*count), ct(*out)).into_stream().collect().await;
                let mut failed = false;
                if items.len() as u64 > *count {
                    bad!("more chunks are fetched than asked for", "{} of {count}", items.len());
                }
                for (i, r) in items.iter().enumerate() {
                    let k = (p.clone(), i as u64, *out);
                    let m = may(&model, &k);
                    info.evals += 1;
                    match r {
                        Ok(b) => {
                            if !m.contains(&Some(b.clone())) {
                                bad!("a fetched chunk is not what was stored", "{k:?} in a stream: {} bytes {:?}, stored: {:?}", b.len(), &b[..b.len().min(20)], show(&m));
                            }
                            model.insert(k, BTreeSet::from([Some(b.clone())]));
                            fetched += 1;
                        }
                        Err(e) => {
                            failed = true;
                            trouble += 1;
                            if !m.contains(&None) && !hit {
                                bad!("a stored chunk cannot be fetched", "{k:?} in a stream: {e:?}");
                            }
                        }
                    }
                }
                if (items.len() as u64) < *count && !failed {
                    bad!("chunks are missing from a stream without an error", "{} of {count}: {p}", items.len());
                }
            }
            SOp::Lose { pick } => {
                // find an object whose content tells which one it is
                let by_content = |b: &[u8]| {
                    let v: Vec<&Key> = model.iter().filter(|(_, m)| m.iter().any(|x| x.as_deref() == Some(b))).map(|(k, _)| k).collect();
                    (b.len() >= 8 && v.len() == 1).then(|| v[0].clone())
                };
                let gone = match case.backend {
                    Backend::Memory => None,
                    Backend::File => {
                        let mut files = vec![];
                        walk(&root, &mut files);
                        files.sort();
                        files.get(*pick as usize % files.len().max(1)).and_then(|f| {
                            let k = by_content(&std::fs::read(f).ok()?)?;
                            std::fs::remove_file(f).ok()?;
                            Some(k)
                        })
                    }
                    _ => {
                        let mut o = web.objects.lock().unwrap();
                        let name = o.keys().nth(*pick as usize % o.len().max(1)).cloned();
                        name.and_then(|n| {
                            let k = by_content(&o[&n])?;
                            o.remove(&n);
                            Some(k)
                        })
                    }
                };
                if let Some(k) = gone {
                    info.tag("object-lost");
                    model.insert(k, BTreeSet::from([None]));
                }
            }
        }
    }
    // in the end, everything is still what it should be
    web.script.lock().unwrap().clear();
    for (k, m) in &model {
        let (ci, pi) = (0..clients.len() as u8).flat_map(|c| (0..case.prefixes.len() as u8).map(move |p| (c, p))).find(|(c, p)| path(*c, *p) == k.0).expect("path");
        let r = clients[ci as usize].retrieve_chunk(&case.prefixes[pi as usize], u63::new(k.1).into(), ct(k.2)).await;
        info.evals += 1;
        let got = r.as_ref().ok().cloned();
        if !m.contains(&got) {
            bad!("a stored chunk changed or disappeared", "{k:?}: {:?}, stored: {:?}", r.map(|b| b.len()), show(m));
        }
    }
    server.abort();
    info.tag(format!("{:?}", case.backend));
    info.nontrivial = stored >= 2 && fetched >= 2 && trouble > 0;
    Ok(info)
}
fn show(m: &May) -> Vec<Option<(usize, Vec<u8>)>> {
    m.iter().map(|x| x.as_ref().map(|b| (b.len(), b[..b.len().min(20)].to_vec()))).collect()
}
