//! Many peers at the same time: producers, cancels, observers and consumers that work, fail,
//! stall, repeat themselves, crash and reconnect. The schedule is the machine's; the oracle is a
//! set of invariants over the recorded history that hold for every schedule, and the requirement
//! that one steady worker drains the queue afterwards.
use crate::engine::*;
use crate::hist::Strat;
use crate::model::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sqlx::{Connection, Row};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Behaviour {
    /// weights: complete, fail, complete twice, keep, complete and fail
    pub act: [u64; 5],
    /// out of 100 per round
    pub crash: u64,
    pub polite: u64,
    pub stale: u64,
    pub silence: u64,
    pub max: u64,
    pub rounds: u64,
    pub pause_ms: u64,
    pub strat: Strat,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChaosCase {
    pub seed: u64,
    pub max_retries: u32,
    /// milliseconds
    pub expiration: u64,
    pub heartbeat: u64,
    pub readers: u32,
    pub producers: Vec<Vec<SubSpec>>,
    /// which of a producer's submissions are cancelled, and how many ms later
    pub cancels: Vec<Vec<Option<u64>>>,
    pub consumers: Vec<Behaviour>,
    pub observers: u64,
    pub workers: usize,
    /// pauses before and lengths of the times the database is locked, in ms
    #[serde(default)]
    pub locks: Vec<(u64, u64)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flavour {
    Plain,
    Expiring,
    Silence,
    /// something else holds the write lock of the database now and then, also for longer than the server waits for it
    Locked,
}
pub struct Chaos {
    pub name: &'static str,
    pub flavour: Flavour,
    /// weight of cancelling, out of 10
    pub cancel: u64,
    pub fail: u64,
}

impl Prop for Chaos {
    type Case = ChaosCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        "at least two consumers received chunks at the same time as submissions were made, and some chunk was returned undone"
    }
    fn threads(&self) -> usize {
        if self.flavour == Flavour::Locked { 16 } else { 4 }
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> ChaosCase {
        let keys: Vec<String> = vec!["k".into(), "l".into()];
        let g = SpecGen { max_chunks: *rng.pick(&[1u64, 2, 4, 9]), stored: 2, edgy: false, keys: keys.clone(), vals: vec![1, 2, 3], ..Default::default() };
        let producers: Vec<Vec<SubSpec>> = (0..rng.range(1, 4)).map(|_| (0..rng.range(1, 6)).map(|_| g.spec(rng)).collect()).collect();
        let cancels = producers.iter().map(|p| p.iter().map(|_| rng.chance(self.cancel, 10).then(|| rng.below(40))).collect()).collect();
        let consumers = (0..rng.range(2, 6))
            .map(|_| {
                let kind = rng.below(4);
                Behaviour {
                    act: match kind {
                        0 => [10, 1, 0, 0, 0],
                        1 => [4, self.fail, 2, 1, 1],
                        2 => [2, 1, 1, 6, 1],
                        _ => [5, self.fail / 2, 2, 2, 1],
                    },
                    crash: *rng.pick(&[0, 5, 20]),
                    polite: *rng.pick(&[0, 5, 20]),
                    stale: *rng.pick(&[0, 10, 30]),
                    silence: if self.flavour == Flavour::Silence { *rng.pick(&[0, 10, 20]) } else { 0 },
                    max: *rng.pick(&[1, 1, 2, 3, 10]),
                    rounds: rng.range(3, 14),
                    pause_ms: *rng.pick(&[0, 1, 5, 20]),
                    strat: Strat::generate(rng, &keys, 5),
                }
            })
            .collect();
        let mut locks = vec![];
        let (mut producers, mut cancels): (Vec<Vec<SubSpec>>, Vec<Vec<Option<u64>>>) = (producers, cancels);
        if self.flavour == Flavour::Locked {
            locks = (0..rng.range(1, 3)).map(|i| (rng.below(if i == 0 { 60 } else { 400 }), *rng.pick(&[20, 300, 2000, 6500, 6500, 9000, 14_000]))).collect();
            if rng.chance(1, 12) {
                // so long, and with so many waiting, that some do not even get at the connection
                locks = vec![(rng.range(20, 60), 36_000)];
                while producers.len() < 10 {
                    producers.push((0..3).map(|_| g.spec(rng)).collect());
                    cancels.push(vec![None; 3]);
                }
            }
        }
        ChaosCase {
            seed: rng.u64(),
            max_retries: *rng.pick(&[1, 2, 3, 5, 10]),
            expiration: if self.flavour == Flavour::Expiring { *rng.pick(&[150, 300, 600]) } else { 600_000 },
            heartbeat: if self.flavour == Flavour::Silence { 100 } else { 10_000 },
            readers: *rng.pick(&[1, 1, 2, 8]),
            producers,
            cancels,
            consumers,
            observers: rng.range(1, 3),
            workers: *rng.pick(&[1, 2, 4]),
            locks,
        }
    }
    fn shrink(&self, c: &ChaosCase) -> Vec<ChaosCase> {
        let mut out = vec![];
        for i in 0..c.consumers.len() {
            let mut d = c.clone();
            d.consumers.remove(i);
            out.push(d);
        }
        for i in 0..c.producers.len() {
            if c.producers.len() > 1 {
                let mut d = c.clone();
                d.producers.remove(i);
                d.cancels.remove(i);
                out.push(d);
            }
        }
        out
    }
    fn run(&self, case: &ChaosCase, mode: Mode) -> RunResult {
        let rt = rt_multi(case.workers);
        let r = rt.block_on(run_chaos(case, self.flavour, mode));
        rt.shutdown_background();
        r
    }
}

type Key = (u64, u64);
#[derive(Clone, Debug)]
struct Hold {
    conn: u64,
    key: Key,
    asked: Instant,
    got: Instant,
    /// just before it was given back
    end: Option<Instant>,
    completed: bool,
}
#[derive(Default)]
struct Log {
    holds: Vec<Hold>,
    conn_end: HashMap<u64, Instant>,
    outputs: HashMap<Key, Vec<Option<Vec<u8>>>>,
    texts: HashMap<Key, Vec<String>>,
    seen: Vec<Key>,
    /// what is certainly known about a submission: (progress, end state with everything it says)
    view: HashMap<u64, (u64, Option<Value>, Option<Instant>)>,
    returned: u64,
}
struct World {
    port: u16,
    log: Mutex<Log>,
    subs: Mutex<BTreeMap<u64, SubSpec>>,
    specs: Mutex<HashMap<u64, Arc<Vec<Option<Vec<u8>>>>>>,
    problem: Mutex<Option<Failure>>,
    stop: AtomicBool,
    conns: AtomicU64,
    evals: AtomicU64,
    max_id: AtomicU64,
    working: AtomicU64,
    /// refusals for lack of access to the database are to be expected
    locked: bool,
    refused: AtomicU64,
}
impl World {
    fn problem(&self, props: &[&'static str], sig: &str, msg: String) {
        let mut p = self.problem.lock().unwrap();
        if p.is_none() {
            *p = Some(Failure { sig: sig.into(), msg, sound: true, props: props.to_vec() });
        }
    }
    fn eval(&self) {
        self.evals.fetch_add(1, Ordering::Relaxed);
    }
    async fn cancel(&self, http: &Http, id: u64) -> Result<Resp, RunError> {
        let mut n = 0;
        loop {
            let r = http.cancel(id).await?;
            if !self.locked || r.0 < 500 || n > 12 {
                return Ok(r);
            }
            n += 1;
            self.refused.fetch_add(1, Ordering::SeqCst);
        }
    }
    /// Poll the status of a submission and hold it against what was known before.
    async fn poll(&self, http: &Http, id: u64) -> Result<Value, RunError> {
        let before = self.log.lock().unwrap().view.get(&id).cloned();
        let st = match http.get(&format!("/producer/submissions/{id}")).await? {
            (200, v) => v,
            (c, v) => return fail_p(&["P01", "P05", "P26"], "status of a submission cannot be read", format!("{c} {v} for {id}")),
        };
        let at = Instant::now();
        self.eval();
        let Some((name, body)) = st.as_object().and_then(|o| o.iter().next()).map(|(k, v)| (k.clone(), v.clone())) else {
            self.problem(&["P05", "P01", "P06"], "a submission disappeared", format!("{id}: {st}, before: {before:?}"));
            return Ok(st);
        };
        let main = if name == "Failed" { &body[0] } else { &body };
        let done = if name == "Completed" { main["chunks_total"].as_u64().unwrap_or(0) } else { main["chunks_done"].as_u64().unwrap_or(0) };
        if let Some((p, end, _)) = &before {
            if let Some(e) = end {
                let cancel_only = e == "Cancelled";
                if (cancel_only && name != "Cancelled") || (!cancel_only && *e != st) {
                    let mut props = vec!["P05", "P02"];
                    if name == "Cancelled" || e.get("Cancelled").is_some() || cancel_only {
                        props.push("P06");
                    }
                    self.problem(&props, "a submission that had ended changed", format!("{id}: {st}, before: {e}"));
                }
            }
            if done < *p {
                self.problem(&["P05", "P01"], "progress went back", format!("{id}: {st}, before: {p}"));
            }
        }
        if done > main["chunks_total"].as_u64().unwrap_or(0) || (name == "InProgress" && done == main["chunks_total"].as_u64().unwrap_or(0)) {
            self.problem(&["P01", "P02"], "progress and total do not agree with the state", format!("{id}: {st}"));
        }
        let mut l = self.log.lock().unwrap();
        let v = l.view.entry(id).or_insert((0, None, None));
        v.0 = v.0.max(done);
        if name != "InProgress" && (v.1.is_none() || v.1 == Some(json!("Cancelled"))) {
            v.1 = Some(st.clone());
            v.2 = Some(v.2.unwrap_or(at));
        }
        Ok(st)
    }
}

async fn producer(w: Arc<World>, case: Arc<ChaosCase>, n: usize) -> Result<(), RunError> {
    let http = Http::patient(w.port);
    let mut rng = Rng::derive(case.seed, "producer", n as u64);
    let mut cancels = vec![];
    for (i, spec) in case.producers[n].iter().enumerate() {
        let floor = w.max_id.load(Ordering::SeqCst);
        let id = if w.locked {
            let mut n = 0;
            loop {
                match http.post("/producer/submissions", &spec.to_json()).await? {
                    (200, v) if v.is_u64() => break v.as_u64().unwrap(),
                    (500.., _) if n < 12 => {
                        n += 1;
                        w.refused.fetch_add(1, Ordering::SeqCst);
                    }
                    (c, v) => return fail_p(&["P01", "P26"], "a valid submission was refused", format!("{c} {v}")),
                }
            }
        } else {
            http.submit(&spec.to_json()).await?
        };
        w.eval();
        if id <= floor {
            w.problem(&["P17"], "a new submission has an identifier that is not larger than that of an earlier one", format!("{id} after {floor}"));
        }
        w.max_id.fetch_max(id, Ordering::SeqCst);
        w.specs.lock().unwrap().insert(id, Arc::new(spec.chunk_contents()));
        if w.subs.lock().unwrap().insert(id, spec.clone()).is_some() {
            w.problem(&["P17"], "two submissions have the same identifier", format!("{id}"));
        }
        if let Some(ms) = case.cancels[n][i] {
            let (w, http) = (w.clone(), http.clone());
            let twice = rng.chance(1, 3);
            cancels.push(tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                let one = async {
                    let before = w.log.lock().unwrap().view.get(&id).and_then(|v| v.1.clone());
                    let r = w.cancel(&http, id).await?;
                    Ok::<_, RunError>((before, r))
                };
                let rs = if twice { futures::future::try_join_all([one]).await?.into_iter().chain(Some((None, w.cancel(&http, id).await?))).collect::<Vec<_>>() } else { vec![one.await?] };
                let at = Instant::now();
                let won = rs.iter().filter(|(_, (c, _))| *c == 200).count();
                w.eval();
                if won > 1 {
                    w.problem(&["P06"], "a submission was cancelled twice", format!("{id}: {rs:?}"));
                }
                for (before, (c, body)) in rs {
                    if c == 200 && before.is_some() {
                        w.problem(&["P06", "P05"], "a submission that had ended was cancelled", format!("{id}: {before:?}"));
                    }
                    if c == 200 {
                        let mut l = w.log.lock().unwrap();
                        let v = l.view.entry(id).or_insert((0, None, None));
                        if v.1.is_none() {
                            v.1 = Some(json!("Cancelled"));
                            v.2 = Some(at);
                        }
                    } else if c == 404 || c >= 500 {
                        w.problem(&["P06"], "cancelling a submission failed", format!("{id}: {c} {body}"));
                    }
                }
                // whatever the answer was, it has ended now
                let st = w.poll(&http, id).await?;
                if st.get("InProgress").is_some() {
                    w.problem(&["P06"], "a submission is in progress after it was cancelled", format!("{id}: {st}"));
                }
                if won == 1 && st.get("Cancelled").is_none() {
                    w.problem(&["P06", "P05"], "a submission that was cancelled is not", format!("{id}: {st}"));
                }
                Ok::<(), RunError>(())
            }));
        }
        tokio::time::sleep(Duration::from_millis(rng.below(12))).await;
    }
    for c in cancels {
        c.await.map_err(infra_err)??;
    }
    Ok(())
}

async fn observer(w: Arc<World>, seed: u64) -> Result<(), RunError> {
    let http = Http::patient(w.port);
    let mut rng = Rng::new(seed);
    while !w.stop.load(Ordering::SeqCst) {
        let ids: Vec<u64> = w.subs.lock().unwrap().keys().copied().collect();
        if ids.is_empty() {
            tokio::time::sleep(Duration::from_millis(1)).await;
            continue;
        }
        // mostly the ones that are still moving
        let moving: Vec<u64> = {
            let l = w.log.lock().unwrap();
            ids.iter().copied().filter(|i| l.view.get(i).is_none_or(|v| v.1.is_none())).collect()
        };
        let id = if !moving.is_empty() && rng.chance(5, 6) { *rng.pick(&moving) } else { *rng.pick(&ids) };
        w.poll(&http, id).await?;
        if rng.chance(1, 4) {
            tokio::time::sleep(Duration::from_micros(rng.below(1500))).await;
        }
    }
    Ok(())
}

struct Peer {
    raw: Raw,
    conn: u64,
    asked: HashMap<u64, (Instant, u64)>,
}
impl Peer {
    async fn connect(w: &World) -> Result<Peer, RunError> {
        let raw = Raw::connect(w.port, Arc::new(Notify::new())).await?;
        Ok(Peer { raw, conn: w.conns.fetch_add(1, Ordering::SeqCst), asked: HashMap::new() })
    }
    async fn ask(&mut self, max: u64, strat: &Strat) {
        let t = Instant::now();
        let n = self.raw.reserve(max, &strat.json()).await;
        self.asked.insert(n, (t, max));
    }
    /// Take note of a message; the chunks that were received
    fn note(&mut self, w: &World, g: Got) -> Vec<Key> {
        w.eval();
        match parse(&g.msg) {
            Parsed::Reserved { nonce, chunks } => {
                let Some((asked, max)) = self.asked.remove(&nonce) else {
                    w.problem(&["P09", "P23"], "a reply to a request that was not made", format!("{}", g.msg));
                    return vec![];
                };
                if chunks.len() as u64 > max || chunks.is_empty() {
                    w.problem(&["P09", "P11"], "a reply with too many or no chunks", format!("{} of {max}", chunks.len()));
                }
                let mut keys = vec![];
                for c in chunks {
                    let k = (c.sub, c.idx);
                    let spec = w.specs.lock().unwrap().get(&c.sub).cloned();
                    if let Some(s) = spec {
                        if s.get(c.idx as usize).is_none_or(|want| c.chunk["input_content"] != json!(want)) {
                            w.problem(&["P03", "P01"], "a chunk was handed out with a wrong content", format!("{k:?}: {}", c.chunk));
                        }
                    }
                    let mut l = w.log.lock().unwrap();
                    if let Some((_, Some(e), Some(at))) = l.view.get(&c.sub) {
                        if *at < asked {
                            let props: &[&'static str] = if e == "Cancelled" || e.get("Cancelled").is_some() { &["P06", "P05"] } else { &["P04", "P05", "P02"] };
                            w.problem(props, "a chunk of a submission that has ended was handed out", format!("{k:?}: {e}"));
                        }
                    }
                    let fails = l.texts.get(&k).map_or(0, Vec::len) as u64;
                    if c.chunk["retries"].as_u64().is_none_or(|r| r > fails) {
                        w.problem(&["P04", "P03"], "a chunk was handed out with more attempts than were made", format!("{}: {fails} failures", c.chunk));
                    }
                    l.holds.push(Hold { conn: self.conn, key: k, asked, got: g.at, end: None, completed: false });
                    l.seen.push(k);
                    keys.push(k);
                }
                keys
            }
            Parsed::Expired { .. } => vec![],
            Parsed::Refused { err, .. } => {
                w.problem(&["P09", "P26"], "a request for chunks was refused", format!("{err}"));
                vec![]
            }
            Parsed::Other(v) => {
                w.problem(&["P18"], "an unknown message", format!("{v}"));
                vec![]
            }
        }
    }
    fn give_back(&self, w: &World, k: Key, completed: bool) {
        let mut l = w.log.lock().unwrap();
        let now = Instant::now();
        for h in l.holds.iter_mut().filter(|h| h.conn == self.conn && h.key == k && h.end.is_none()) {
            h.end = Some(now);
            h.completed = completed;
        }
    }
    async fn complete(&mut self, w: &World, k: Key, out: Option<Vec<u8>>) {
        w.log.lock().unwrap().outputs.entry(k).or_default().push(out.clone());
        self.give_back(w, k, true);
        self.raw.complete(k, &out).await;
    }
    async fn fail(&mut self, w: &World, k: Key, text: String) {
        {
            let mut l = w.log.lock().unwrap();
            l.texts.entry(k).or_default().push(text.clone());
            l.returned += 1;
        }
        self.give_back(w, k, false);
        self.raw.fail(k, &text).await;
    }
    /// To be called before the connection goes away
    fn leave(&self, w: &World) {
        let mut l = w.log.lock().unwrap();
        let now = Instant::now();
        let mut n = 0;
        for h in l.holds.iter_mut().filter(|h| h.conn == self.conn && h.end.is_none()) {
            h.end = Some(now);
            n += 1;
        }
        l.returned += n;
        l.conn_end.insert(self.conn, now);
    }
}

async fn consumer(w: Arc<World>, b: Behaviour, seed: u64) -> Result<Vec<Silent>, RunError> {
    let mut rng = Rng::new(seed);
    let mut silent = vec![];
    let mut p = Peer::connect(&w).await?;
    let mut held: Vec<Key> = vec![];
    let mut got_any = false;
    for _ in 0..b.rounds {
        if p.asked.is_empty() || rng.chance(1, 4) {
            p.ask(b.max, &b.strat).await;
        }
        if let Some(g) = p.raw.recv(Duration::from_millis(5 + rng.below(60))).await {
            let keys = p.note(&w, g);
            if !keys.is_empty() && !got_any {
                got_any = true;
                w.working.fetch_add(1, Ordering::SeqCst);
            }
            held.extend(keys);
        }
        if b.pause_ms > 0 {
            tokio::time::sleep(Duration::from_millis(rng.below(b.pause_ms + 1))).await;
        }
        rng.shuffle(&mut held);
        let mut keep = vec![];
        for k in std::mem::take(&mut held) {
            let out = if rng.chance(1, 3) { None } else { Some(rng.bytes(6)) };
            let text = format!("f{}", rng.below(1000));
            match rng.weighted(&b.act) {
                0 => p.complete(&w, k, out).await,
                1 => p.fail(&w, k, text).await,
                2 => {
                    p.complete(&w, k, out.clone()).await;
                    p.complete(&w, k, out).await;
                }
                3 => keep.push(k),
                _ => {
                    p.complete(&w, k, out).await;
                    p.fail(&w, k, text).await;
                }
            }
        }
        held = keep;
        if rng.chance(b.stale, 100) {
            let k = {
                let l = w.log.lock().unwrap();
                if l.seen.is_empty() { None } else { Some(*rng.pick(&l.seen)) }
            };
            if let Some(k) = k {
                // (it may be somebody else's; that must not take away anything from them)
                if rng.chance(1, 2) {
                    let out = Some(rng.bytes(4));
                    w.log.lock().unwrap().outputs.entry(k).or_default().push(out.clone());
                    p.give_back(&w, k, true);
                    p.raw.complete(k, &out).await;
                } else {
                    p.fail(&w, k, "stale".into()).await;
                }
                held.retain(|h| *h != k);
            }
        }
        let how = rng.below(100);
        if how < b.crash + b.polite + b.silence {
            p.leave(&w);
            held.clear();
            let old = std::mem::replace(&mut p, Peer::connect(&w).await?);
            if how < b.crash {
                old.raw.drop_hard().await;
            } else if how < b.crash + b.polite {
                old.raw.close().await;
            } else {
                silent.push(old.raw.silence());
            }
        }
    }
    p.leave(&w);
    if rng.chance(1, 2) { p.raw.close().await } else { p.raw.drop_hard().await }
    Ok(silent)
}

/// Take work and complete it until all submissions have ended.
async fn drain(w: &Arc<World>, http: &Http, patience: Duration) -> Result<(), RunError> {
    let mut p = Peer::connect(w).await?;
    let strats = [Strat::Random, Strat::Oldest, Strat::Newest, Strat::Prefer("k".into(), Box::new(Strat::Random))];
    let (mut n, mut last) = (0usize, Instant::now());
    loop {
        if p.asked.is_empty() {
            p.ask(5, &strats[n % 4]).await;
            n += 1;
        }
        while let Some(g) = p.raw.recv(Duration::from_millis(30)).await {
            for k in p.note(w, g) {
                last = Instant::now();
                p.complete(w, k, Some(vec![1, 2])).await;
            }
            if p.asked.is_empty() {
                p.ask(5, &strats[n % 4]).await;
                n += 1;
            }
        }
        if p.raw.closed() {
            w.problem(&["P26", "P08"], "the server closed the connection of a steady worker", String::new());
            return Ok(());
        }
        let open: Vec<u64> = {
            let subs: Vec<u64> = w.subs.lock().unwrap().keys().copied().collect();
            let l = w.log.lock().unwrap();
            subs.into_iter().filter(|i| l.view.get(i).is_none_or(|v| v.1.is_none() || v.1 == Some(json!("Cancelled")))).collect()
        };
        let mut all = true;
        for id in open {
            all &= w.poll(http, id).await?.get("InProgress").is_none();
        }
        if w.problem.lock().unwrap().is_some() {
            return Ok(());
        }
        if all {
            // nothing is left to hand out: the last request stays without an answer
            if let Some(g) = p.raw.recv(Duration::from_millis(15)).await {
                let keys = p.note(w, g);
                if !keys.is_empty() {
                    w.problem(&["P26", "P01"], "chunks are handed out although everything has ended", format!("{keys:?}"));
                }
            }
            p.leave(w);
            p.raw.close().await;
            return Ok(());
        }
        if last.elapsed() > patience {
            // Is it the waiting request that was forgotten, or a chunk that nobody gets?
            let mut q = Peer::connect(w).await?;
            q.ask(1, &Strat::Random).await;
            let got = q.raw.recv(Duration::from_secs(5)).await.map(|g| q.note(w, g)).unwrap_or_default();
            let still = p.raw.pop().is_none();
            if !got.is_empty() && still {
                w.problem(&["P09", "P26"], "a waiting request is not served although there is work", format!("after {patience:?} another consumer got {got:?} at once"));
            } else if still {
                let mut left = vec![];
                for id in w.subs.lock().unwrap().keys().copied().collect::<Vec<_>>() {
                    let st = http.status(id).await?;
                    if st.get("InProgress").is_some() {
                        left.push(st);
                    }
                }
                w.problem(&["P26", "P08", "P09"], "a chunk is not handed out any more", format!("for {patience:?}: {left:?}"));
            }
            q.leave(w);
            q.raw.close().await;
            return Ok(());
        }
    }
}

/// Hold the write lock of the database as said; how often for longer than the server waits
async fn lock(file: String, locks: Vec<(u64, u64)>) -> Result<u64, RunError> {
    if locks.is_empty() {
        return Ok(0);
    }
    let mut c = open_reader(&file).await?;
    let mut long = 0;
    for (pause, ms) in locks {
        tokio::time::sleep(Duration::from_millis(pause)).await;
        sqlx::query("BEGIN IMMEDIATE").execute(&mut c).await.map_err(infra_err)?;
        tokio::time::sleep(Duration::from_millis(ms)).await;
        sqlx::query("ROLLBACK").execute(&mut c).await.map_err(infra_err)?;
        long += (ms > 5500) as u64;
    }
    let _ = c.close().await;
    Ok(long)
}

async fn run_chaos(case: &ChaosCase, flavour: Flavour, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let cfg = SrvCfg { expiration: Duration::from_millis(case.expiration), heartbeat: Duration::from_millis(case.heartbeat), missable: 3, max_retries: case.max_retries, readers: case.readers, ..Default::default() };
    let srv = Server::start(&file, &cfg).await?;
    let http = Http::patient(srv.port);
    let w = Arc::new(World {
        port: srv.port,
        log: Mutex::default(),
        subs: Mutex::default(),
        specs: Mutex::default(),
        problem: Mutex::default(),
        stop: AtomicBool::new(false),
        conns: AtomicU64::new(0),
        evals: AtomicU64::new(0),
        max_id: AtomicU64::new(0),
        working: AtomicU64::new(0),
        locked: flavour == Flavour::Locked,
        refused: AtomicU64::new(0),
    });
    let c = Arc::new(case.clone());
    let obs: Vec<_> = (0..case.observers).map(|i| tokio::spawn(observer(w.clone(), case.seed ^ (i + 77)))).collect();
    let prods: Vec<_> = (0..case.producers.len()).map(|n| tokio::spawn(producer(w.clone(), c.clone(), n))).collect();
    let cons: Vec<_> = case.consumers.iter().enumerate().map(|(n, b)| tokio::spawn(consumer(w.clone(), b.clone(), case.seed ^ (n as u64 * 1_000_003 + 5)))).collect();
    let locker = tokio::spawn(lock(file.clone(), case.locks.clone()));
    let mut silent = vec![];
    for t in prods {
        t.await.map_err(infra_err)??;
    }
    for t in cons {
        silent.extend(t.await.map_err(infra_err)??);
    }
    // now one steady worker
    let patience = Duration::from_secs(if mode.slow { 40 } else { 20 }) + Duration::from_millis(case.locks.iter().map(|l| l.0 + l.1).sum());
    drain(&w, &http, patience).await?;
    let long = locker.await.map_err(infra_err)??;
    w.stop.store(true, Ordering::SeqCst);
    for o in obs {
        o.await.map_err(infra_err)??;
    }
    if let Some(f) = w.problem.lock().unwrap().take() {
        return Err(RunError::Violation(f));
    }
    // no two consumers had the same chunk at the same time
    let l = w.log.lock().unwrap();
    let now = Instant::now();
    let far = Duration::from_secs(3600);
    if flavour != Flavour::Silence {
        let mut by: HashMap<Key, Vec<&Hold>> = HashMap::new();
        for h in &l.holds {
            by.entry(h.key).or_default().push(h);
        }
        for (k, hs) in by {
            for (i, a) in hs.iter().enumerate() {
                for b in &hs[i + 1..] {
                    info.evals += 1;
                    let until = |h: &Hold| {
                        let e = h.end.unwrap_or(now);
                        if case.expiration < 600_000 { e.min(h.asked + Duration::from_millis(case.expiration.saturating_sub(60))) } else { e }
                    };
                    if a.got.max(b.got) < until(a).min(until(b)) {
                        return fail_p_sound(&["P07"], "two consumers had the same chunk at the same time", format!("{k:?}: {a:?} and {b:?}"));
                    }
                    let (first, second) = if a.got < b.got { (a, b) } else { (b, a) };
                    // reported as completed on a connection that was still there when it was handed out again
                    if first.completed && flavour != Flavour::Locked && case.expiration >= 600_000 && first.end.is_some_and(|e| e < second.got) {
                        let alive = l.conn_end.get(&first.conn).copied().unwrap_or(now + far);
                        if second.got < alive {
                            return fail_p_sound(&["P07", "P02"], "a completed chunk was handed out again", format!("{k:?}: {first:?} and {second:?}"));
                        }
                    }
                }
            }
        }
    }
    let (outputs, texts, returned) = (l.outputs.clone(), l.texts.clone(), l.returned);
    drop(l);
    // what is stored agrees with what was reported
    let subs = w.subs.lock().unwrap().clone();
    let mut db = srv.reader().await?;
    let tick = tokio::time::Instant::now() + Duration::from_secs(10);
    loop {
        let left: i64 = sqlx::query_scalar("SELECT (SELECT count(*) FROM chunks) + (SELECT count(*) FROM submissions)").fetch_one(&mut db).await.map_err(infra_err)?;
        if left == 0 {
            break;
        }
        if tokio::time::Instant::now() > tick {
            return fail_p_sound(&["P01", "P26", "P06"], "chunks or submissions are left over although everything has ended", format!("{left}"));
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    let mut done: BTreeMap<u64, BTreeMap<u64, Option<Vec<u8>>>> = BTreeMap::new();
    for r in sqlx::query("SELECT submission_id, chunk_index, output_content FROM chunks_completed").fetch_all(&mut db).await.map_err(infra_err)? {
        done.entry(r.get::<i64, _>(0) as u64).or_default().insert(r.get::<i64, _>(1) as u64, r.get(2));
    }
    let mut bad: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
    for r in sqlx::query("SELECT submission_id, chunk_index FROM chunks_failed").fetch_all(&mut db).await.map_err(infra_err)? {
        bad.entry(r.get::<i64, _>(0) as u64).or_default().insert(r.get::<i64, _>(1) as u64);
    }
    let known: i64 = sqlx::query_scalar("SELECT (SELECT count(*) FROM submissions_completed) + (SELECT count(*) FROM submissions_failed) + (SELECT count(*) FROM submissions_cancelled)").fetch_one(&mut db).await.map_err(infra_err)?;
    if known != subs.len() as i64 {
        return fail_p_sound(&["P01", "P10", "P24"], "there are more or fewer submissions than were acknowledged", format!("{known}, acknowledged {}, refused {}", subs.len(), w.refused.load(Ordering::SeqCst)));
    }
    info.tag_n("refused-while-locked", w.refused.load(Ordering::SeqCst));
    info.tag_n("locked-for-long", long);
    let _ = db.close().await;
    for (id, spec) in &subs {
        let st = w.poll(&http, *id).await?;
        let (name, body) = st.as_object().and_then(|o| o.iter().next()).map(|(k, v)| (k.clone(), v.clone())).unwrap_or_default();
        let main = if name == "Failed" { body[0].clone() } else { body.clone() };
        let d = done.get(id).cloned().unwrap_or_default();
        let f = bad.get(id).cloned().unwrap_or_default();
        info.evals += 1;
        info.tag(format!("end:{name}"));
        let places: BTreeSet<u64> = d.keys().copied().chain(f.iter().copied()).collect();
        if places.len() != d.len() + f.len() || places != (0..spec.len() as u64).collect() {
            return fail_p_sound(&["P01"], "a chunk is lost or in two places", format!("{id}: {name}, completed {:?}, failed {f:?}, of {}", d.keys(), spec.len()));
        }
        if name == "Completed" && !f.is_empty() {
            return fail_p_sound(&["P02", "P01"], "a submission is completed although not all of its chunks are", format!("{id}: {f:?}"));
        }
        if name != "Completed" && main["chunks_done"] != json!(d.len()) {
            return fail_p_sound(&["P01", "P02"], "the reported progress is not the number of completed chunks", format!("{id}: {st}, completed {:?}", d.keys()));
        }
        for (i, out) in &d {
            if !outputs.get(&(*id, *i)).is_some_and(|v| v.contains(out)) {
                return fail_p_sound(&["P03", "P02"], "a chunk has a result that nobody reported", format!("{id} {i}: {out:?}"));
            }
        }
        if name == "Failed" {
            let i = main["failed_chunk_id"].as_u64().unwrap_or(u64::MAX);
            let t = texts.get(&(*id, i)).cloned().unwrap_or_default();
            if !t.iter().any(|t| json!(t) == body[1]["failure"]) {
                return fail_p_sound(&["P04", "P03"], "a submission failed with a text that nobody reported", format!("{st}: {t:?}"));
            }
            if (t.len() as u32) < case.max_retries.max(1) {
                return fail_p_sound(&["P04"], "a submission failed although attempts were left", format!("{st}: {} failures reported, limit {}", t.len(), case.max_retries));
            }
        }
        if name == "Cancelled" && case.cancels.iter().flatten().all(|c| c.is_none()) {
            return fail_p_sound(&["P06"], "a submission is cancelled that nobody cancelled", format!("{st}"));
        }
    }
    if let Some(f) = w.problem.lock().unwrap().take() {
        return Err(RunError::Violation(f));
    }
    // Nothing counts as being worked on: submissions with values that were used before are now
    // handed out in order of age, each one before any second one with the same value.
    // (Wait for the last completions and goodbyes to be taken note of.)
    let mut verdict = Ok(());
    for round in 0..if mode.slow { 40 } else { 12 } {
        verdict = balanced(&w, &http).await?;
        info.evals += 1;
        if verdict.is_ok() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(50 << round.min(5))).await;
    }
    if let Err(m) = verdict {
        return fail_p_sound(&["P12", "P26"], "with nothing being worked on, some metadata values count as busy", m);
    }
    info.evals += w.evals.load(Ordering::Relaxed);
    drop(silent);
    srv.stop().await;
    info.tag_n("chunks-returned", returned);
    info.tag_n("handed-out", w.log.lock().unwrap().holds.len() as u64);
    info.nontrivial = w.working.load(Ordering::SeqCst) >= 2 && returned > 0;
    Ok(info)
}

/// Submit one chunk for each value and see in which order a distinct-preferring consumer gets them.
async fn balanced(w: &Arc<World>, http: &Http) -> Result<Result<(), String>, RunError> {
    for key in ["k", "l"] {
        let mut ids = vec![];
        for v in [3i64, 1, 2] {
            let spec = SubSpec { contents: Contents::Direct(vec![Some(vec![7])]), metadata: None, strategic: BTreeMap::from([(key.to_string(), v)]), chunk_size: None };
            let id = http.submit(&spec.to_json()).await?;
            w.specs.lock().unwrap().insert(id, Arc::new(spec.chunk_contents()));
            ids.push(id);
        }
        let mut p = Peer::connect(w).await?;
        let mut got = vec![];
        for _ in 0..3 {
            p.ask(1, &Strat::Prefer(key.into(), Box::new(Strat::Oldest))).await;
            match p.raw.recv(Duration::from_secs(20)).await {
                Some(g) => got.extend(p.note(w, g)),
                None => return Ok(Err("no chunk was handed out".into())),
            }
        }
        let order: Vec<u64> = got.iter().map(|k| k.0).collect();
        for k in got {
            p.complete(w, k, None).await;
        }
        for id in &ids {
            let end = tokio::time::Instant::now() + Duration::from_secs(20);
            while http.status(*id).await?.get("Completed").is_none() && tokio::time::Instant::now() < end {
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        p.leave(w);
        p.raw.close().await;
        if order != ids {
            return Ok(Err(format!("key {key}: order {order:?} instead of {ids:?}")));
        }
    }
    Ok(Ok(()))
}
