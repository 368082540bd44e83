//! P23: the real consumer client. Against a scripted server (replies in any order, requesters
//! that give up before or after the reply, connections lost in every way), and in a crowd against
//! a real server behind a proxy that cuts connections, with restarts.
use crate::check;
use crate::engine::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use futures::{SinkExt, StreamExt};
use opsqueue::common::chunk::{Chunk, ChunkId};
use opsqueue::common::submission::Submission;
use opsqueue::consumer::client::{InternalConsumerClientError, OuterClient};
use opsqueue::consumer::common::*;
use opsqueue::consumer::strategy::Strategy;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::{Notify, mpsc};
use tokio_tungstenite::tungstenite::Message;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// close frame
    Close,
    /// the TCP connection ends without a word
    Drop,
    /// the TCP connection is reset
    Reset,
    /// the server stays connected and reads, but never says anything again
    Silence,
    /// the server stays connected but neither reads nor writes, while results are being sent
    Freeze,
    /// bytes that are no websocket frame
    Garbage,
    /// a message that cannot be decoded
    Unparsable,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Greet {
    CloseAtOnce,
    NoInit,
    BadInit,
    /// Accepts and then does nothing, for as long as the client likes
    Stall,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// Start this many requests at the same time. Held ones are not polled again until resumed.
    Ask { n: u32, held: bool },
    /// Answer an open request with this many chunks
    Answer { which: u32, chunks: u32 },
    Refuse { which: u32 },
    Abandon { which: u32 },
    Resume { which: u32 },
    Complete(Option<Vec<u8>>),
    Fail(String),
    Expire,
    /// The connection is lost, and the next attempts are met like this
    Lose(How, Vec<Greet>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScriptCase {
    pub steps: Vec<Step>,
    pub silent: bool,
}

type AskResult = Result<Vec<(Chunk, Submission)>, String>;
type Call = Pin<Box<dyn Future<Output = AskResult>>>;

#[derive(Clone, Debug)]
enum Ev {
    Ask { nonce: usize, max: usize },
    Complete(ChunkId, Option<Vec<u8>>),
    Fail(ChunkId, String),
    Closed,
    Bad(String),
}
enum Cmd {
    Send(Message),
    Lose(How),
}
struct St {
    log: Mutex<Vec<(usize, Ev)>>,
    notify: Notify,
    greet: Mutex<VecDeque<Greet>>,
    conns: Mutex<HashMap<usize, mpsc::UnboundedSender<Cmd>>>,
    heartbeat: Duration,
    next: AtomicU64,
    ready: AtomicU64,
}
struct Fake {
    addr: String,
    st: Arc<St>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Fake {
    fn drop(&mut self) {
        self.task.abort();
    }
}
impl St {
    fn push(&self, conn: usize, ev: Ev) {
        self.log.lock().unwrap().push((conn, ev));
        self.notify.notify_waiters();
    }
}
const MISSABLE: usize = 2;

async fn serve_conn(st: Arc<St>, tcp: tokio::net::TcpStream) {
    let greet = st.greet.lock().unwrap().pop_front();
    if greet == Some(Greet::CloseAtOnce) {
        return;
    }
    if greet == Some(Greet::Stall) {
        let _tcp = tcp;
        return std::future::pending().await;
    }
    let fd = {
        use std::os::fd::AsRawFd;
        tcp.as_raw_fd()
    };
    let _ = fd;
    let Ok(mut ws) = tokio_tungstenite::accept_async(tcp).await else { return };
    match greet {
        Some(Greet::NoInit) => {
            let _ = ws.close(None).await;
            return;
        }
        Some(Greet::BadInit) => {
            let _ = ws.send(Message::Binary(vec![0xff, 0x00].into())).await;
            return;
        }
        _ => {}
    }
    let conn = st.next.fetch_add(1, Ordering::SeqCst) as usize;
    let (tx, mut rx) = mpsc::unbounded_channel();
    st.conns.lock().unwrap().insert(conn, tx);
    let init = ServerToClientMessage::Init(ConsumerConfig { max_missable_heartbeats: MISSABLE, heartbeat_interval: st.heartbeat, version_info: opsqueue::version_info(), conn_id: conn.to_string() });
    if ws.send(init.into()).await.is_err() {
        st.push(conn, Ev::Closed);
        return;
    }
    st.ready.fetch_add(1, Ordering::SeqCst);
    let mut ping = tokio::time::interval(st.heartbeat / 4);
    let mut muted = false;
    loop {
        tokio::select! {
            m = ws.next() => match m {
                Some(Ok(m @ Message::Binary(_))) => {
                    let e: Result<Envelope<ClientToServerMessage>, _> = m.try_into();
                    st.push(conn, match e {
                        Ok(Envelope { nonce, contents: ClientToServerMessage::WantToReserveChunks { max, .. } }) => Ev::Ask { nonce, max },
                        Ok(Envelope { contents: ClientToServerMessage::CompleteChunk { id, output_content }, .. }) => Ev::Complete(id, output_content),
                        Ok(Envelope { contents: ClientToServerMessage::FailChunk { id, failure }, .. }) => Ev::Fail(id, failure),
                        Err(e) => Ev::Bad(e.to_string()),
                    });
                }
                Some(Ok(Message::Close(_))) | Some(Err(_)) | None => break,
                Some(Ok(_)) => {}
            },
            _ = ping.tick(), if !muted => { let _ = ws.send(Message::Ping(vec![].into())).await; }
            c = rx.recv() => match c {
                Some(Cmd::Send(m)) => { let _ = ws.send(m).await; }
                Some(Cmd::Lose(How::Close)) => { let _ = ws.send(Message::Close(None)).await; let _ = tokio::time::timeout(Duration::from_millis(300), async { while let Some(Ok(_)) = ws.next().await {} }).await; break; }
                Some(Cmd::Lose(How::Drop)) => break,
                Some(Cmd::Lose(How::Reset)) => {
                    let _ = ws.get_ref().set_zero_linger();
                    break;
                }
                Some(Cmd::Lose(How::Silence)) => muted = true,
                Some(Cmd::Lose(How::Freeze)) => {
                    // hold the connection without ever looking at it again
                    st.push(conn, Ev::Closed);
                    let _ws = ws;
                    return std::future::pending().await;
                }
                Some(Cmd::Lose(How::Garbage)) => {
                    use tokio::io::AsyncWriteExt;
                    muted = true;
                    let _ = ws.get_mut().write_all(&[0xff; 24]).await;
                }
                Some(Cmd::Lose(How::Unparsable)) => {
                    muted = true;
                    let _ = ws.send(Message::Binary(vec![0xff, 0x13].into())).await;
                }
                None => break,
            },
        }
    }
    st.push(conn, Ev::Closed);
}

impl Fake {
    async fn start(heartbeat: Duration) -> Result<Fake, RunError> {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(infra_err)?;
        let addr = format!("127.0.0.1:{}", l.local_addr().map_err(infra_err)?.port());
        let st = Arc::new(St { log: Mutex::default(), notify: Notify::new(), greet: Mutex::default(), conns: Mutex::default(), heartbeat, next: 0.into(), ready: 0.into() });
        let s2 = st.clone();
        let task = tokio::spawn(async move {
            let mut set = tokio::task::JoinSet::new();
            loop {
                if let Ok((s, _)) = l.accept().await {
                    set.spawn(serve_conn(s2.clone(), s));
                }
            }
        });
        Ok(Fake { addr, st, task })
    }
    fn send(&self, conn: usize, m: ServerToClientMessage) {
        if let Some(c) = self.st.conns.lock().unwrap().get(&conn) {
            let _ = c.send(Cmd::Send(m.into()));
        }
    }
    fn lose(&self, conn: usize, how: How) {
        if let Some(c) = self.st.conns.lock().unwrap().get(&conn) {
            let _ = c.send(Cmd::Lose(how));
        }
    }
}

enum Who {
    Task(tokio::task::JoinHandle<AskResult>),
    Held(Call),
    Gone,
}
struct Req {
    tag: usize,
    who: Who,
    /// connection and nonce under which the server saw it
    seen: Option<(usize, usize)>,
    answer: Option<Vec<(Chunk, Submission)>>,
    done: bool,
}

struct Sim {
    fake: Fake,
    client: Arc<OuterClient>,
    reqs: Vec<Req>,
    read: usize,
    /// the connection that is currently good, as far as the script knows
    conn: Option<usize>,
    /// the connection may be replaced by the client at any time (after a refused request)
    loose: bool,
    dead: BTreeSet<usize>,
    nonces: BTreeSet<(usize, usize)>,
    expect_fail: BTreeMap<(usize, u64, u64), String>,
    expect_complete: Vec<(u64, u64, Option<Vec<u8>>)>,
    /// results sent around a loss may or may not arrive
    maybe: BTreeSet<(u64, u64)>,
    next_tag: usize,
    next_chunk: u64,
    limit: Duration,
    info: CaseInfo,
}

fn ask_future(c: Arc<OuterClient>, tag: usize) -> impl Future<Output = AskResult> {
    async move { c.reserve_chunks(tag, Strategy::Oldest).await.map_err(|e| format!("{e:?}")) }
}
fn cid(id: ChunkId) -> (u64, u64) {
    (u64::from(id.submission_id), u64::from(id.chunk_index))
}
fn mk_id(c: (u64, u64)) -> ChunkId {
    serde_json::from_value(json!({"submission_id": c.0, "chunk_index": c.1})).expect("chunk id")
}
fn mk_chunk(sub: u64, idx: u64) -> (Chunk, Submission) {
    serde_json::from_value(json!([
        {"submission_id": sub, "chunk_index": idx, "input_content": format!("in-{sub}-{idx}").into_bytes(), "retries": sub % 3},
        {"id": sub, "prefix": null, "chunks_total": idx + 1, "chunks_done": 0, "chunk_size": 1, "metadata": null, "strategic_metadata": {}, "otel_trace_carrier": "{}"}
    ]))
    .expect("chunk")
}
fn same(a: &[(Chunk, Submission)], b: &[(Chunk, Submission)]) -> bool {
    serde_json::to_value(a).unwrap() == serde_json::to_value(b).unwrap()
}

impl Sim {
    /// Take note of what the server has seen since the last time.
    fn absorb(&mut self) -> Result<(), RunError> {
        let new: Vec<(usize, Ev)> = self.fake.st.log.lock().unwrap()[self.read..].to_vec();
        self.read += new.len();
        for (conn, ev) in new {
            match ev {
                Ev::Ask { nonce, max } => {
                    check!(self.nonces.insert((conn, nonce)), "two requests on one connection have the same number", "nonce {nonce} on connection {conn}");
                    match self.reqs.iter_mut().find(|r| r.tag == max) {
                        Some(r) => r.seen = Some((conn, nonce)),
                        None => return fail("the client sent a request nobody made", format!("for {max} chunks")),
                    }
                    if !self.dead.contains(&conn) {
                        if self.conn != Some(conn) && self.conn.is_some() && !self.loose {
                            return fail("the client gave up a working connection", format!("request for {max} arrived on connection {conn} although {:?} works", self.conn));
                        }
                        self.loose = false;
                        self.conn = Some(conn);
                    }
                }
                Ev::Complete(id, out) => {
                    let key = (cid(id).0, cid(id).1, out);
                    match self.expect_complete.iter().position(|x| *x == key) {
                        Some(p) => {
                            self.expect_complete.remove(p);
                        }
                        None if self.maybe.remove(&cid(id)) => {}
                        None => return fail("the client sent a result nobody reported", format!("completion of {:?}", cid(id))),
                    }
                }
                Ev::Fail(id, text) => {
                    let (a, b) = cid(id);
                    match self.expect_fail.remove(&(conn, a, b)) {
                        Some(t) => check!(t.is_empty() || t == text, "a failure text was changed on the way", "chunk {:?}: {t:?} became {text:?}", (a, b)),
                        None if self.maybe.remove(&(a, b)) => {}
                        None => return fail("the client failed a chunk nobody gave up", format!("{:?} on connection {conn}: {text:?}", (a, b))),
                    }
                }
                Ev::Closed => {
                    if self.conn == Some(conn) && !self.dead.contains(&conn) && !self.loose {
                        return fail("the client gave up a working connection", format!("connection {conn} was closed by the client"));
                    }
                    self.dead.insert(conn);
                    // the server takes back what was reserved over it
                    self.expect_fail.retain(|k, _| k.0 != conn);
                }
                Ev::Bad(e) => return fail("the client sent a message that cannot be decoded", e),
            }
        }
        Ok(())
    }
    async fn until(&mut self, what: &str, mut cond: impl FnMut(&mut Sim) -> bool) -> Result<bool, RunError> {
        let _ = what;
        let end = Instant::now() + self.limit;
        loop {
            self.absorb()?;
            if cond(self) {
                return Ok(true);
            }
            if Instant::now() > end {
                return Ok(false);
            }
            // let the tasks run; everything here is local, so this is quick
            let _ = tokio::time::timeout(Duration::from_millis(2), self.fake.st.notify.notified()).await;
        }
    }
    /// Is this request finished? Polls a held one.
    async fn poll(&mut self, i: usize) -> Option<AskResult> {
        let r = &mut self.reqs[i];
        let out = match &mut r.who {
            Who::Task(h) if h.is_finished() => Some(h.await.unwrap_or_else(|e| Err(format!("PANIC {e}")))),
            Who::Held(f) => match futures::poll!(f.as_mut()) {
                std::task::Poll::Ready(x) => Some(x),
                std::task::Poll::Pending => None,
            },
            _ => None,
        };
        if out.is_some() {
            r.done = true;
            r.who = Who::Gone;
        }
        out
    }
    /// Start requests until they are all seen by the server on a good connection.
    async fn ask(&mut self, n: u32, held: bool) -> Result<(), RunError> {
        // after a loss, some requests may fail before the client notices
        let mut excuses = if self.conn.is_none() { 4 + self.reqs.len() as u32 } else { 0 };
        let mut open: Vec<usize> = vec![];
        let start = Instant::now();
        for _ in 0..n {
            open.push(self.begin(held));
        }
        loop {
            let mut i = 0;
            while i < open.len() {
                let k = open[i];
                let seen_ok = self.reqs[k].seen.is_some_and(|(c, _)| !self.dead.contains(&c));
                if seen_ok {
                    open.remove(i);
                    self.info.tag("asked");
                    continue;
                }
                if let Some(r) = self.poll(k).await {
                    match r {
                        Err(e) if e.contains("PANIC") => return fail("a client call panicked", e),
                        Err(e) if excuses > 0 && e.starts_with("L(") => {
                            excuses -= 1;
                            self.info.tag("ask-failed-after-loss");
                            open[i] = self.begin(held);
                        }
                        Err(e) if self.loose && e.starts_with("L(") => {
                            self.info.tag("ask-failed-after-refusal");
                            open[i] = self.begin(held);
                        }
                        r => return fail("a request ended without an answer from the server", format!("{r:?}")),
                    }
                    continue;
                }
                i += 1;
            }
            self.absorb()?;
            if open.is_empty() {
                return Ok(());
            }
            if start.elapsed() > self.limit {
                return fail("the client does not get through to a working server", format!("{} request(s) did not arrive within {:?}", open.len(), self.limit));
            }
            let _ = tokio::time::timeout(Duration::from_millis(2), self.fake.st.notify.notified()).await;
        }
    }
    fn begin(&mut self, held: bool) -> usize {
        let tag = self.next_tag;
        self.next_tag += 1;
        let f = ask_future(self.client.clone(), tag);
        let who = if held { Who::Held(Box::pin(f)) } else { Who::Task(tokio::spawn(f)) };
        self.reqs.push(Req { tag, who, seen: None, answer: None, done: false });
        self.reqs.len() - 1
    }
    fn open(&self, which: u32, pred: impl Fn(&Req) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.reqs.len()).filter(|i| !self.reqs[*i].done && pred(&self.reqs[*i])).collect();
        (!c.is_empty()).then(|| c[which as usize % c.len()])
    }
    fn alive(&self, r: &Req) -> bool {
        r.seen.is_some_and(|(c, _)| !self.dead.contains(&c))
    }
    /// Everything sent to the client before this has been processed by it.
    async fn settle(&mut self, conn: usize) -> Result<(), RunError> {
        let id = (9_000_000_000 + self.next_chunk, 0);
        self.next_chunk += 1;
        self.expect_fail.insert((conn, id.0, id.1), String::new());
        self.fake.send(conn, ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(mk_id(id))));
        if !self.until("expired chunk given back", |s| !s.expect_fail.contains_key(&(conn, id.0, id.1)) || s.dead.contains(&conn)).await? {
            return fail("an expired reservation is not confirmed by the client", format!("{id:?}"));
        }
        Ok(())
    }
    async fn step(&mut self, step: &Step) -> Result<(), RunError> {
        match step {
            Step::Ask { n, held } => self.ask(*n, *held).await?,
            Step::Answer { which, chunks } => {
                let Some(i) = self.open(*which, |r| r.answer.is_none() && self.alive(r)) else { return Ok(()) };
                let (conn, nonce) = self.reqs[i].seen.unwrap();
                let cs: Vec<_> = (0..*chunks)
                    .map(|k| {
                        self.next_chunk += 1;
                        mk_chunk(self.next_chunk, u64::from(k))
                    })
                    .collect();
                let gone = matches!(self.reqs[i].who, Who::Gone);
                if gone {
                    for (c, _) in &cs {
                        self.expect_fail.insert((conn, u64::from(c.submission_id), u64::from(c.chunk_index)), String::new());
                    }
                }
                self.fake.send(conn, ServerToClientMessage::Sync(Envelope { nonce, contents: SyncServerToClientResponse::ChunksReserved(Ok(cs.clone())) }));
                self.reqs[i].answer = Some(cs.clone());
                if gone {
                    self.info.tag("answer-to-abandoned");
                    self.reqs[i].done = true;
                    self.settle(conn).await?;
                    self.given_back("its requester had gone before the reply").await?;
                } else if matches!(self.reqs[i].who, Who::Task(_)) {
                    self.info.tag("answer");
                    let out_of_order = self.reqs[..i].iter().any(|r| !r.done && r.answer.is_none() && !matches!(r.who, Who::Gone));
                    if out_of_order {
                        self.info.tag("answer-out-of-order");
                    }
                    self.finish(i, &cs).await?;
                } else {
                    self.info.tag("answer-to-held");
                    self.settle(conn).await?;
                }
            }
            Step::Refuse { which } => {
                let Some(i) = self.open(*which, |r| r.answer.is_none() && self.alive(r) && matches!(r.who, Who::Task(_))) else { return Ok(()) };
                let (conn, nonce) = self.reqs[i].seen.unwrap();
                self.loose = true;
                self.fake.send(conn, ServerToClientMessage::Sync(Envelope { nonce, contents: SyncServerToClientResponse::ChunksReserved(Err(opsqueue::common::errors::IncorrectUsage(opsqueue::common::errors::LimitIsZero()))) }));
                match self.outcome(i).await? {
                    Some(Err(e)) if e.starts_with("R(") => {}
                    other => return fail("a refused request was not told so", format!("{other:?}")),
                }
                self.info.tag("refused");
            }
            Step::Abandon { which } => {
                let Some(i) = self.open(*which, |r| self.alive(r) && !matches!(r.who, Who::Gone)) else { return Ok(()) };
                let (conn, _) = self.reqs[i].seen.unwrap();
                match std::mem::replace(&mut self.reqs[i].who, Who::Gone) {
                    Who::Task(h) => {
                        h.abort();
                        let _ = h.await;
                    }
                    Who::Held(f) => drop(f),
                    Who::Gone => {}
                }
                self.info.tag("abandoned");
                if let Some(cs) = self.reqs[i].answer.clone() {
                    self.info.tag("abandoned-after-the-reply");
                    self.reqs[i].done = true;
                    for (c, _) in &cs {
                        self.expect_fail.insert((conn, u64::from(c.submission_id), u64::from(c.chunk_index)), String::new());
                    }
                    self.given_back("its requester went away before it looked at the reply").await?;
                }
            }
            Step::Resume { which } => {
                let Some(i) = self.open(*which, |r| matches!(r.who, Who::Held(_)) && (r.answer.is_some() || !self.alive(r))) else { return Ok(()) };
                match self.reqs[i].answer.clone() {
                    Some(cs) => self.finish(i, &cs).await?,
                    None => {
                        self.info.tag("late-failure");
                        self.lost(i).await?;
                    }
                }
            }
            Step::Complete(out) => {
                let Some(conn) = self.conn.filter(|_| !self.loose) else { return Ok(()) };
                let _ = conn;
                self.next_chunk += 1;
                let id = (self.next_chunk, 0);
                self.expect_complete.push((id.0, id.1, out.clone()));
                self.report(id, true, Ok(out.clone())).await?;
                if !self.until("completion", |s| !s.expect_complete.iter().any(|e| (e.0, e.1) == id)).await? {
                    return fail("a reported completion does not reach the server", format!("{id:?}"));
                }
                self.info.tag("completed");
            }
            Step::Fail(text) => {
                let Some(conn) = self.conn.filter(|_| !self.loose) else { return Ok(()) };
                self.next_chunk += 1;
                let id = (self.next_chunk, 0);
                self.expect_fail.insert((conn, id.0, id.1), text.clone());
                self.report(id, true, Err(text.clone())).await?;
                if !self.until("failure", |s| !s.expect_fail.contains_key(&(conn, id.0, id.1))).await? {
                    return fail("a reported failure does not reach the server", format!("{id:?}"));
                }
                self.info.tag("failed");
            }
            Step::Expire => {
                let Some(conn) = self.conn.filter(|_| !self.loose) else { return Ok(()) };
                self.settle(conn).await?;
                self.info.tag("expired");
            }
            Step::Lose(how, greets) => {
                let Some(conn) = self.conn else { return Ok(()) };
                self.absorb()?;
                *self.fake.st.greet.lock().unwrap() = greets.iter().copied().collect();
                self.dead.insert(conn);
                self.conn = None;
                self.info.tag(format!("lost:{how:?}"));
                for g in greets {
                    self.info.tag(format!("greeted:{g:?}"));
                }
                self.expect_fail.retain(|k, _| k.0 != conn);
                self.fake.lose(conn, *how);
                let mut reports = vec![];
                if *how == How::Freeze {
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    for _ in 0..3 {
                        self.next_chunk += 1;
                        let id = (self.next_chunk, 0);
                        self.maybe.insert(id);
                        let c = self.client.clone();
                        reports.push(tokio::spawn(async move { c.complete_chunk(mk_id(id), Some(vec![7; 6_000_000])).await.map_err(|e| format!("{e:?}")) }));
                    }
                }
                let waiting: Vec<usize> = (0..self.reqs.len()).filter(|i| !self.reqs[*i].done && self.reqs[*i].seen.is_some_and(|(c, _)| c == conn) && matches!(self.reqs[*i].who, Who::Task(_))).collect();
                for i in waiting {
                    self.info.tag("pending-at-loss");
                    self.lost(i).await?;
                }
                for r in reports {
                    match tokio::time::timeout(self.limit, r).await {
                        Err(_) => return fail("a report hangs after the connection is lost", format!("complete_chunk did not return within {:?} after {how:?}", self.limit)),
                        Ok(Err(e)) => return fail("a client call panicked", e.to_string()),
                        Ok(Ok(_)) => {}
                    }
                }
                // give the client the chance to notice: then the next call must work
                let end = Instant::now() + if matches!(how, How::Silence | How::Freeze) { self.limit } else { Duration::from_millis(100) };
                while self.client.is_healthy() && Instant::now() < end {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                if matches!(how, How::Silence | How::Freeze) && self.client.is_healthy() {
                    return fail("the client does not notice that the server has fallen silent", format!("{how:?}: still healthy after {:?}", self.limit));
                }
                self.ask(1, false).await?;
                self.info.tag("reconnected");
            }
        }
        Ok(())
    }
    async fn given_back(&mut self, why: &str) -> Result<(), RunError> {
        if !self.until("given back", |s| s.expect_fail.is_empty()).await? {
            return fail("chunks whose requester is gone are not given back", format!("{:?}: {why}", self.expect_fail.keys().collect::<Vec<_>>()));
        }
        Ok(())
    }
    async fn report(&mut self, id: (u64, u64), must: bool, r: Result<Option<Vec<u8>>, String>) -> Result<(), RunError> {
        let c = self.client.clone();
        let f = async move {
            match r {
                Ok(out) => c.complete_chunk(mk_id(id), out).await,
                Err(text) => c.fail_chunk(mk_id(id), text).await,
            }
        };
        match tokio::time::timeout(self.limit, f).await {
            Err(_) => fail("a report hangs", format!("{id:?}")),
            Ok(Err(e)) if must => fail("a report fails on a working connection", format!("{id:?}: {e:?}")),
            Ok(_) => Ok(()),
        }
    }
    async fn outcome(&mut self, i: usize) -> Result<Option<AskResult>, RunError> {
        let end = Instant::now() + self.limit;
        loop {
            if let Some(r) = self.poll(i).await {
                self.info.evals += 1;
                if let Err(e) = &r {
                    check!(!e.contains("PANIC"), "a client call panicked", "{e}");
                }
                return Ok(Some(r));
            }
            self.absorb()?;
            if Instant::now() > end {
                return Ok(None);
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    /// An answered request must return exactly its answer.
    async fn finish(&mut self, i: usize, cs: &[(Chunk, Submission)]) -> Result<(), RunError> {
        let alive = self.alive(&self.reqs[i]);
        match self.outcome(i).await? {
            None => fail("a request hangs although it was answered", format!("request {}", self.reqs[i].tag)),
            Some(Ok(got)) if same(&got, cs) => Ok(()),
            Some(Ok(got)) => fail("a request got the wrong reply", format!("request {}: expected {:?}, got {:?}", self.reqs[i].tag, ids(cs), ids(&got))),
            Some(Err(_)) if !alive => Ok(()),
            Some(Err(e)) => fail("an answered request failed", format!("request {}: {e}", self.reqs[i].tag)),
        }
    }
    /// A request whose connection is lost must fail (or be repeated), but not hang.
    async fn lost(&mut self, i: usize) -> Result<(), RunError> {
        let old = self.reqs[i].seen;
        let end = Instant::now() + self.limit;
        loop {
            if let Some(r) = self.poll(i).await {
                self.info.evals += 1;
                return match r {
                    Err(e) if e.contains("PANIC") => fail("a client call panicked", e),
                    Err(_) => Ok(()),
                    Ok(cs) => fail("a request without a reply returned chunks", format!("{:?}", ids(&cs))),
                };
            }
            self.absorb()?;
            if self.reqs[i].seen != old {
                self.info.tag("repeated-by-the-client");
                return Ok(());
            }
            if Instant::now() > end {
                return fail("a pending request hangs after the connection is lost", format!("request {} on connection {:?}", self.reqs[i].tag, old));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
}
fn ids(cs: &[(Chunk, Submission)]) -> Vec<(u64, u64)> {
    cs.iter().map(|(c, _)| (u64::from(c.submission_id), u64::from(c.chunk_index))).collect()
}

pub struct Scripted {
    pub name: &'static str,
    pub silent: bool,
    pub stall: bool,
}
impl Prop for Scripted {
    type Case = ScriptCase;
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        "requests were answered, and a requester went away or the connection was lost while requests were pending"
    }
    fn threads(&self) -> usize {
        if self.silent || self.stall { 24 } else { 16 }
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> ScriptCase {
        let mut steps = vec![];
        let n = if self.silent || self.stall { rng.range(3, 8) } else { rng.range(4, 24) };
        for _ in 0..n {
            let which = rng.below(64) as u32;
            steps.push(match rng.weighted(&[10, 12, 1, 5, 5, 3, 3, 2, if self.silent || self.stall { 0 } else { 3 }]) {
                0 => Step::Ask { n: if rng.chance(1, 3) { rng.range(2, 6) as u32 } else { 1 }, held: rng.chance(1, 3) },
                1 => Step::Answer { which, chunks: rng.weighted(&[1, 4, 2, 1]) as u32 },
                2 => Step::Refuse { which },
                3 => Step::Abandon { which },
                4 => Step::Resume { which },
                5 => Step::Complete(match rng.below(5) {
                    0 => None,
                    1 => Some(vec![]),
                    2 => Some(vec![3; 200_000]),
                    _ => Some(rng.bytes(20)),
                }),
                6 => Step::Fail(rng.string_edgy(20)),
                7 => Step::Expire,
                _ => Step::Lose(self.how(rng), greets(rng)),
            });
        }
        if self.silent || self.stall {
            let k = rng.usize(steps.len()) + 1;
            steps.insert(k.min(steps.len()), Step::Ask { n: rng.range(1, 3) as u32, held: rng.chance(1, 4) });
            let how = if self.silent { *rng.pick(&[How::Silence, How::Silence, How::Freeze]) } else { self.how(rng) };
            let mut g = greets(rng);
            if self.stall {
                g.push(Greet::Stall);
            }
            steps.insert((k + 1).min(steps.len()), Step::Lose(how, g));
        }
        ScriptCase { steps, silent: self.silent }
    }
    fn run(&self, case: &ScriptCase, mode: Mode) -> RunResult {
        let stalls = case.steps.iter().any(|s| matches!(s, Step::Lose(_, g) if g.contains(&Greet::Stall)));
        let rt = rt();
        let r = rt.block_on(async {
            let hb = match (case.silent, mode.slow) {
                (false, _) => Duration::from_secs(60),
                (true, false) => Duration::from_millis(200),
                (true, true) => Duration::from_millis(1000),
            };
            let fake = Fake::start(hb).await?;
            let client = Arc::new(OuterClient::new(&fake.addr));
            let limit = Duration::from_secs(if stalls { 60 } else if mode.slow { 40 } else { 12 });
            let mut sim = Sim { fake, client, reqs: vec![], read: 0, conn: None, loose: false, dead: BTreeSet::new(), nonces: BTreeSet::new(), expect_fail: BTreeMap::new(), expect_complete: vec![], maybe: BTreeSet::new(), next_tag: 1, next_chunk: 0, limit, info: CaseInfo::default() };
            for s in &case.steps {
                sim.step(s).await?;
                sim.info.evals += 1;
            }
            // whatever is left: answer it, and see that it works
            while let Some(i) = sim.open(0, |r| r.answer.is_none() && sim.alive(r)) {
                let _ = i;
                sim.step(&Step::Answer { which: 0, chunks: 1 }).await?;
            }
            while sim.open(0, |r| matches!(r.who, Who::Held(_)) && (r.answer.is_some() || !sim.alive(r))).is_some() {
                sim.step(&Step::Resume { which: 0 }).await?;
            }
            sim.step(&Step::Ask { n: 1, held: false }).await?;
            sim.step(&Step::Answer { which: 0, chunks: 2 }).await?;
            sim.absorb()?;
            let t = &sim.info.tags;
            let has = |k: &str| t.contains_key(k);
            sim.info.nontrivial = has("answer") && (has("answer-to-abandoned") || has("abandoned-after-the-reply") || has("pending-at-loss") || has("late-failure"));
            Ok(std::mem::take(&mut sim.info))
        });
        rt.shutdown_background();
        r
    }
    fn shrink(&self, case: &ScriptCase) -> Vec<ScriptCase> {
        let mut out: Vec<ScriptCase> = shrink_vec(&case.steps).into_iter().map(|steps| ScriptCase { steps, silent: case.silent }).collect();
        for (i, s) in case.steps.iter().enumerate() {
            let simpler = match s {
                Step::Ask { n, held } if *n > 1 => Step::Ask { n: 1, held: *held },
                Step::Ask { n, held: true } => Step::Ask { n: *n, held: false },
                Step::Answer { which, chunks } if *chunks > 1 => Step::Answer { which: *which, chunks: 1 },
                Step::Lose(h, g) if !g.is_empty() => Step::Lose(*h, vec![]),
                _ => continue,
            };
            let mut steps = case.steps.clone();
            steps[i] = simpler;
            out.push(ScriptCase { steps, silent: case.silent });
        }
        out
    }
}
fn greets(rng: &mut Rng) -> Vec<Greet> {
    if rng.chance(2, 3) {
        return vec![];
    }
    (0..rng.range(1, 3)).map(|_| *rng.pick(&[Greet::CloseAtOnce, Greet::NoInit, Greet::BadInit])).collect()
}
impl Scripted {
    fn how(&self, rng: &mut Rng) -> How {
        *rng.pick(&[How::Close, How::Drop, How::Reset, How::Garbage, How::Unparsable])
    }
}

// ---------------------------------------------------------------------------------------------
// Crowd: several users of real clients, a real server, cut connections and restarts

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrowdCase {
    pub seed: u64,
    pub subs: Vec<u32>,
    pub clients: u32,
    pub users: u32,
    pub rounds: u32,
    pub cuts: Vec<(u64, u8)>,
    pub workers: usize,
}
pub struct ClientCrowd;

struct Pipe {
    addr: String,
    upstream: Arc<AtomicU64>,
    kill: Arc<Mutex<tokio_util::sync::CancellationToken>>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for Pipe {
    fn drop(&mut self) {
        self.task.abort();
        self.kill.lock().unwrap().cancel();
    }
}
impl Pipe {
    async fn start(port: u16) -> Result<Pipe, RunError> {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(infra_err)?;
        let addr = format!("127.0.0.1:{}", l.local_addr().map_err(infra_err)?.port());
        let upstream = Arc::new(AtomicU64::new(port.into()));
        let kill = Arc::new(Mutex::new(tokio_util::sync::CancellationToken::new()));
        let (u2, k2) = (upstream.clone(), kill.clone());
        let task = tokio::spawn(async move {
            loop {
                let Ok((mut a, _)) = l.accept().await else { continue };
                let token = k2.lock().unwrap().clone();
                let port = u2.load(Ordering::SeqCst) as u16;
                tokio::spawn(async move {
                    let Ok(mut b) = tokio::net::TcpStream::connect(("127.0.0.1", port)).await else { return };
                    let _ = a.set_nodelay(true);
                    let _ = b.set_nodelay(true);
                    tokio::select! {
                        _ = tokio::io::copy_bidirectional(&mut a, &mut b) => {}
                        () = token.cancelled() => {}
                    }
                });
            }
        });
        Ok(Pipe { addr, upstream, kill, task })
    }
    fn cut(&self) {
        let old = std::mem::replace(&mut *self.kill.lock().unwrap(), tokio_util::sync::CancellationToken::new());
        old.cancel();
    }
}

impl Prop for ClientCrowd {
    type Case = CrowdCase;
    fn name(&self) -> &'static str {
        "client-crowd"
    }
    fn rule(&self) -> &'static str {
        "requests were aborted, connections were cut, and chunks were completed meanwhile"
    }
    fn threads(&self) -> usize {
        4
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> CrowdCase {
        CrowdCase {
            seed: rng.u64(),
            subs: (0..rng.range(1, 6)).map(|_| rng.range(1, 30) as u32).collect(),
            clients: rng.range(1, 3) as u32,
            users: rng.range(1, 5) as u32,
            rounds: rng.range(3, 14) as u32,
            cuts: (0..rng.below(5)).map(|_| (rng.below(60), rng.weighted(&[6, 2]) as u8)).collect(),
            workers: *rng.pick(&[1usize, 2, 4]),
        }
    }
    fn run(&self, case: &CrowdCase, mode: Mode) -> RunResult {
        let rt = rt_multi(case.workers);
        let r = rt.block_on(crowd(case, mode));
        rt.shutdown_background();
        r
    }
    fn shrink(&self, case: &CrowdCase) -> Vec<CrowdCase> {
        let mut out = vec![];
        for cuts in shrink_vec(&case.cuts) {
            out.push(CrowdCase { cuts, ..case.clone() });
        }
        for subs in shrink_vec(&case.subs) {
            if !subs.is_empty() {
                out.push(CrowdCase { subs, ..case.clone() });
            }
        }
        for f in [|c: &mut CrowdCase| c.clients -= 1, |c: &mut CrowdCase| c.users -= 1, |c: &mut CrowdCase| c.rounds /= 2] {
            let mut c = case.clone();
            f(&mut c);
            if c.clients > 0 && c.users > 0 && c.rounds > 0 {
                out.push(c);
            }
        }
        out
    }
}

async fn crowd(case: &CrowdCase, mode: Mode) -> RunResult {
    let limit = Duration::from_secs(if mode.slow { 60 } else { 20 });
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let cfg = SrvCfg { max_retries: 1_000_000, ..Default::default() };
    let mut srv = Server::start(&file, &cfg).await?;
    let pipe = Pipe::start(srv.port).await?;
    let mut subs = vec![];
    for n in &case.subs {
        let contents: Vec<Vec<u8>> = (0..*n).map(|i| format!("w{i}").into_bytes()).collect();
        subs.push((srv.http().submit(&json!({"chunk_contents": {"Direct": {"contents": contents}}})).await?, *n));
    }
    let stop = Arc::new(AtomicBool::new(false));
    let trouble: Arc<Mutex<Option<String>>> = Arc::default();
    let tags: Arc<Mutex<BTreeMap<&'static str, u64>>> = Arc::default();
    let clients: Vec<Arc<OuterClient>> = (0..case.clients).map(|_| Arc::new(OuterClient::new(&pipe.addr))).collect();
    let mut users = vec![];
    for (ci, c) in clients.iter().enumerate() {
        for u in 0..case.users {
            let c = c.clone();
            let mut rng = Rng::derive(case.seed, "user", (ci as u64) << 8 | u64::from(u));
            let (stop, trouble, tags) = (stop.clone(), trouble.clone(), tags.clone());
            let rounds = case.rounds;
            users.push(tokio::spawn(async move {
                let tag = |t: &'static str| *tags.lock().unwrap().entry(t).or_default() += 1;
                for _ in 0..rounds {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let max = rng.range(1, 4) as usize;
                    let c2 = c.clone();
                    let mut call = tokio::spawn(async move { c2.reserve_chunks(max, Strategy::Random).await });
                    let patience = Duration::from_micros(if rng.chance(1, 2) { rng.below(3000) } else { 60_000 });
                    let got = match tokio::time::timeout(patience, &mut call).await {
                        Err(_) => {
                            call.abort();
                            match call.await {
                                Err(e) if e.is_cancelled() => {
                                    tag("aborted");
                                    continue;
                                }
                                r => r,
                            }
                        }
                        Ok(r) => r,
                    };
                    match got {
                        Err(e) => {
                            *trouble.lock().unwrap() = Some(format!("{e}"));
                            return;
                        }
                        Ok(Err(_)) => {
                            tag("call-failed");
                            continue;
                        }
                        Ok(Ok(chunks)) => {
                            if chunks.len() > max {
                                *trouble.lock().unwrap() = Some(format!("asked for {max}, got {}", chunks.len()));
                            }
                            for (chunk, _) in chunks {
                                let id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
                                let r: Result<(), InternalConsumerClientError> = if rng.chance(2, 3) {
                                    tag("completed");
                                    c.complete_chunk(id, chunk.input_content.map(|mut v| {
                                        v.push(b'!');
                                        v
                                    })).await
                                } else {
                                    tag("failed");
                                    c.fail_chunk(id, "no".into()).await
                                };
                                if r.is_err() {
                                    tag("report-failed");
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    for (after, kind) in &case.cuts {
        tokio::time::sleep(Duration::from_millis(*after)).await;
        *tags.lock().unwrap().entry(if *kind == 0 { "cut" } else { "restart" }).or_default() += 1;
        if *kind == 0 {
            pipe.cut();
        } else {
            srv.stop().await;
            pipe.cut();
            srv = Server::start(&file, &cfg).await?;
            pipe.upstream.store(srv.port.into(), Ordering::SeqCst);
        }
    }
    stop.store(true, Ordering::SeqCst);
    for u in users {
        match tokio::time::timeout(limit, u).await {
            Err(_) => return fail("a call of the client hangs", format!("a user of the client did not come back within {limit:?}")),
            Ok(Err(e)) => return fail("a client call panicked", e.to_string()),
            Ok(Ok(())) => {}
        }
    }
    if let Some(t) = trouble.lock().unwrap().take() {
        return fail("a client call panicked", t);
    }
    // Nothing may be stuck with the clients (which are still connected): one of them drains the queue.
    let worker = clients[case.seed as usize % clients.len()].clone();
    let end = Instant::now() + limit;
    let http = srv.http();
    let mut open: Vec<(u64, u32)> = subs.clone();
    loop {
        let mut rest = vec![];
        for (id, n) in open {
            let s = http.status(id).await?;
            if s.get("Completed").is_none() {
                if s.get("Failed").is_some() || s.get("Cancelled").is_some() {
                    return fail("a submission ended in the wrong way", format!("{s}"));
                }
                rest.push((id, n));
            }
        }
        open = rest;
        if open.is_empty() {
            break;
        }
        if Instant::now() > end {
            return fail("chunks whose requester is gone are not given back", format!("submissions {open:?} cannot be finished by a steady worker within {limit:?}"));
        }
        let c = worker.clone();
        if let Ok(r) = tokio::time::timeout(Duration::from_millis(300), c.reserve_chunks(50, Strategy::Oldest)).await {
            for (chunk, _) in r.unwrap_or_default() {
                let id = ChunkId::from((chunk.submission_id, chunk.chunk_index));
                let _ = worker.complete_chunk(id, chunk.input_content.map(|mut v| {
                    v.push(b'!');
                    v
                })).await;
            }
        }
    }
    drop(clients);
    srv.stop().await;
    let tags = tags.lock().unwrap().clone();
    let mut info = CaseInfo { evals: subs.len() as u64, ..Default::default() };
    info.nontrivial = tags.contains_key("aborted") && tags.contains_key("completed") && (tags.contains_key("cut") || tags.contains_key("restart"));
    for (k, n) in tags {
        info.tag_n(k, n);
    }
    Ok(info)
}

/// P23: chunks and results of any size that the server accepts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BulkCase {
    /// sizes of the chunks, one submission each
    pub sizes: Vec<u32>,
    pub max: u32,
    /// sizes of the results, used in turn
    pub outputs: Vec<u32>,
    /// sizes of the metadata and the failure text of a submission that fails at last
    #[serde(default)]
    pub failing: Option<(u32, u32)>,
}
pub struct Bulk;

impl Prop for Bulk {
    type Case = BulkCase;
    fn name(&self) -> &'static str {
        "bulk"
    }
    fn rule(&self) -> &'static str {
        "a reply or a result took more than 1 MB"
    }
    fn threads(&self) -> usize {
        6
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> BulkCase {
        // (a submission of more than 2 MB is refused)
        if rng.chance(1, 4) {
            return BulkCase { sizes: (0..rng.range(24, 48)).map(|_| rng.range(400_000, 500_000) as u32).collect(), max: rng.range(20, 60) as u32, outputs: vec![rng.below(200) as u32], failing: None };
        }
        let n = rng.range(1, 40);
        let top = *rng.pick(&[1000u64, 60_000, 500_000]);
        let out = *rng.pick(&[10u64, 70_000, 3_000_000, 16_000_000]);
        let text = *rng.pick(&[100u64, 20_000, 70_000, 2_000_000]);
        let meta = *rng.pick(&[300u64, 70_000, 400_000]);
        let failing = rng.chance(2, 3).then(|| (rng.below(meta) as u32, rng.range(text / 2, text) as u32));
        BulkCase { failing, sizes: (0..n).map(|_| rng.range(0, top) as u32).collect(), max: rng.range(1, 60) as u32, outputs: (0..rng.range(1, 4)).map(|i| if i == 0 { rng.range(out / 2, out) } else { rng.below(200) } as u32).collect() }
    }
    fn shrink(&self, c: &BulkCase) -> Vec<BulkCase> {
        let mut out: Vec<BulkCase> = shrink_vec(&c.sizes).into_iter().filter(|s| !s.is_empty()).map(|sizes| BulkCase { sizes, ..c.clone() }).collect();
        out.extend(shrink_vec(&c.outputs).into_iter().filter(|s| !s.is_empty()).map(|outputs| BulkCase { outputs, ..c.clone() }));
        out
    }
    fn run(&self, case: &BulkCase, mode: Mode) -> RunResult {
        let rt = rt_multi(2);
        let r = rt.block_on(bulk(case, mode));
        rt.shutdown_background();
        r
    }
}

fn filler(salt: u64, n: u32) -> Vec<u8> {
    (0..u64::from(n)).map(|i| (i.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(salt << 17) >> 29) as u8).collect()
}

async fn bulk(case: &BulkCase, mode: Mode) -> RunResult {
    use sqlx::Connection as _;
    let mut info = CaseInfo::default();
    let limit = Duration::from_secs(if mode.slow { 90 } else { 45 });
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let srv = Server::start(&file, &SrvCfg { heartbeat: Duration::from_secs(20), expiration: Duration::from_secs(600), ..Default::default() }).await?;
    let http = Http::patient(srv.port);
    let mut ids = HashMap::new();
    for (i, n) in case.sizes.iter().enumerate() {
        let id = http.submit(&json!({"chunk_contents": {"Direct": {"contents": [filler(i as u64, *n)]}}})).await?;
        ids.insert(id, i);
        heartbeat();
    }
    let client = OuterClient::new(&format!("127.0.0.1:{}", srv.port));
    let (mut done, mut turn) = (HashMap::new(), 0);
    while done.len() < ids.len() {
        heartbeat();
        let got = match tokio::time::timeout(limit, client.reserve_chunks(case.max as usize, Strategy::Oldest)).await {
            Err(_) => return fail("large chunks are not handed out", format!("after {} of {}, for {limit:?}", done.len(), ids.len())),
            Ok(Err(e)) => return fail("a call fails although nothing is wrong", format!("after {} of {} chunks: {e}", done.len(), ids.len())),
            Ok(Ok(g)) => g,
        };
        let total: usize = got.iter().map(|(c, _)| c.input_content.as_ref().map_or(0, Vec::len)).sum();
        info.nontrivial |= total > 1 << 20;
        info.tag(match total {
            n if n > 16 << 20 => "reply-over-16MiB",
            n if n > 8 << 20 => "reply-over-8MiB",
            n if n > 1 << 20 => "reply-over-1MiB",
            _ => "small-reply",
        });
        for (c, _) in got {
            let id = u64::from(c.submission_id);
            let i = ids[&id];
            info.evals += 1;
            check!(c.input_content == Some(filler(i as u64, case.sizes[i])), "a chunk has not the content that was submitted", "{} bytes instead of {}", c.input_content.map_or(0, |v| v.len()), case.sizes[i]);
            check!(!done.contains_key(&id), "a completed chunk is handed out", "{i}");
            let n = case.outputs[turn % case.outputs.len()];
            turn += 1;
            if n > 8 << 20 {
                info.tag("result-over-8MiB");
            }
            info.nontrivial |= n > 1 << 20;
            match tokio::time::timeout(limit, client.complete_chunk(ChunkId::from((c.submission_id, c.chunk_index)), Some(filler(id, n)))).await {
                Ok(Ok(())) => {}
                other => return fail("a call fails although nothing is wrong", format!("result of {n} bytes: {other:?}")),
            }
            // (one after the other, so that a lost one is noticed here)
            let end = Instant::now() + limit;
            while http.status(id).await?.get("Completed").is_none() {
                check!(Instant::now() < end, "a result is lost", "{n} bytes, for {limit:?}");
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
            heartbeat();
            done.insert(id, n);
        }
    }
    if let Some((m, t)) = case.failing {
        let metadata = filler(77, m);
        let text: String = (0..u64::from(t)).map(|i| if i % 1009 == 7 { 'é' } else { (b'a' + (i % 1013 % 26) as u8) as char }).collect();
        let id = http.submit(&json!({"chunk_contents": {"Direct": {"contents": [[1, 2]]}}, "metadata": metadata})).await?;
        let end = Instant::now() + limit;
        let mut tries = 0;
        let st = loop {
            let st = http.status(id).await?;
            if st.get("Failed").is_some() {
                break st;
            }
            check!(Instant::now() < end, "a result is lost", "failure text of {t} bytes, for {limit:?}, {tries} attempts reported");
            heartbeat();
            if let Ok(got) = tokio::time::timeout(Duration::from_millis(500), client.reserve_chunks(3, Strategy::Oldest)).await {
                let got = match got {
                    Ok(g) => g,
                    Err(e) => return fail("a call fails although nothing is wrong", format!("{e}")),
                };
                for (c, s) in got {
                    check!(s.metadata.as_deref() == Some(&metadata[..]), "the metadata handed out with a chunk are not those of its submission", "{m} bytes");
                    tries += 1;
                    if let Err(e) = client.fail_chunk(ChunkId::from((c.submission_id, c.chunk_index)), text.clone()).await {
                        return fail("a call fails although nothing is wrong", format!("failure text of {t} bytes: {e}"));
                    }
                }
            }
        };
        info.evals += 2;
        check!(st["Failed"][1]["failure"].as_str() == Some(&text), "a recorded failure differs from what was reported", "{} bytes instead of {t}", st["Failed"][1]["failure"].as_str().map_or(0, str::len));
        check!(st["Failed"][0]["metadata"] == json!(metadata), "the metadata of a failed submission are not those it was made with", "{m} bytes");
        if t > 65_535 {
            info.tag("failure-text-over-64KiB");
        }
    }
    let mut c = open_reader(&file).await?;
    for (id, n) in &done {
        let out: Option<Vec<u8>> = sqlx::query_scalar("SELECT output_content FROM chunks_completed WHERE submission_id = ?").bind(*id as i64).fetch_one(&mut c).await.map_err(infra_err)?;
        info.evals += 1;
        check!(out == Some(filler(*id, *n)), "a recorded result differs from what was reported", "{} bytes instead of {n}", out.map_or(0, |o| o.len()));
    }
    let _ = c.close().await;
    Ok(info)
}
