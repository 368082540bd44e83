//! A real opsqueue server on a loopback port (in this process), and raw peers that speak the
//! documented protocols without using opsqueue's own client code: JSON over HTTP for producers,
//! CBOR over WebSocket for consumers.
use crate::engine::*;
use futures::{SinkExt, StreamExt};
use serde_json::{Value, json};
use std::collections::VecDeque;
use std::num::NonZero;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use tokio_tungstenite::tungstenite::Message;
use tokio_util::sync::CancellationToken;

#[derive(Clone, Debug)]
pub struct SrvCfg {
    pub expiration: Duration,
    pub heartbeat: Duration,
    pub missable: usize,
    pub max_retries: u32,
    pub max_submissions: u64,
    pub readers: u32,
    /// run the periodic checkpoints
    pub checkpoint: bool,
    /// the real server program, as a process of its own
    pub real: bool,
}
impl Default for SrvCfg {
    fn default() -> Self {
        SrvCfg { expiration: Duration::from_secs(600), heartbeat: Duration::from_secs(10), missable: 3, max_retries: 3, max_submissions: 100_000, readers: 8, checkpoint: true, real: false }
    }
}

fn prom() -> opsqueue::prometheus::PrometheusConfig {
    static P: OnceLock<Mutex<opsqueue::prometheus::PrometheusConfig>> = OnceLock::new();
    P.get_or_init(|| Mutex::new(opsqueue::prometheus::setup_prometheus())).lock().unwrap().clone()
}

/// Call once, inside a runtime, before many servers start in parallel.
pub fn warm_up() {
    let _ = crate::util::template_db();
    crate::util::rt().block_on(async {
        let _ = prom();
    });
}

pub struct Server {
    pub port: u16,
    pub file: String,
    kind: Kind,
}
enum Kind {
    Own { token: CancellationToken, pools: opsqueue::db::DBPools, task: tokio::task::JoinHandle<()>, ckpt: tokio::task::JoinHandle<()> },
    Program(Box<crate::real::Real>),
}

impl Server {
    pub async fn start(file: &str, cfg: &SrvCfg) -> Result<Server, RunError> {
        if cfg.real {
            let ms = |d: Duration| format!("{}ms", d.as_millis());
            let args = [
                ("--reservation-expiration", ms(cfg.expiration)),
                ("--heartbeat-interval", ms(cfg.heartbeat)),
                ("--max-missable-heartbeats", cfg.missable.to_string()),
                ("--max-chunk-retries", cfg.max_retries.to_string()),
                ("--max-submissions-returned", cfg.max_submissions.to_string()),
                ("--max-read-pool-size", cfg.readers.to_string()),
            ];
            let args: Vec<&str> = args.iter().flat_map(|(k, v)| [*k, v.as_str()]).collect();
            let r = crate::real::Real::start(file, &args, &[]).await?;
            return Ok(Server { port: r.port, file: file.into(), kind: Kind::Program(Box::new(r)) });
        }
        let pools = opsqueue::db::open_and_setup(file, NonZero::new(cfg.readers).unwrap()).await;
        let config: &'static opsqueue::config::Config = Box::leak(Box::new(opsqueue::config::Config {
            database_filename: file.into(),
            reservation_expiration: cfg.expiration.into(),
            heartbeat_interval: cfg.heartbeat.into(),
            max_missable_heartbeats: cfg.missable,
            max_chunk_retries: cfg.max_retries,
            max_submissions_returned: opsqueue::common::MaxSubmissions::new(NonZero::new(cfg.max_submissions).unwrap())
                .map_err(|_| infra_err("max submissions"))?,
            ..Default::default()
        }));
        let token = CancellationToken::new();
        let router = opsqueue::server::build_router(config, pools.clone(), cfg.expiration, &token, Arc::new(AtomicBool::new(true)), prom());
        let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(infra_err)?;
        let port = listener.local_addr().map_err(infra_err)?.port();
        let t2 = token.clone();
        let task = tokio::spawn(async move {
            let _ = axum::serve(listener, router).with_graceful_shutdown(t2.cancelled_owned()).await;
        });
        let p2 = pools.clone();
        let on = cfg.checkpoint;
        let ckpt = tokio::spawn(async move {
            if on {
                p2.periodically_checkpoint_wal().await
            }
        });
        Ok(Server { port, file: file.into(), kind: Kind::Own { token, pools, task, ckpt } })
    }
    /// Stop serving and close the database.
    pub async fn stop(self) {
        match self.kind {
            Kind::Own { token, pools, task, ckpt } => {
                token.cancel();
                ckpt.abort();
                let _ = tokio::time::timeout(Duration::from_secs(2), task).await;
                drop(pools);
            }
            Kind::Program(mut r) => {
                r.interrupt(Duration::from_secs(3)).await;
                r.kill();
            }
        }
    }
    pub fn http(&self) -> Http {
        Http::new(self.port)
    }
    /// A direct, independent reading connection to the database file.
    pub async fn reader(&self) -> Result<sqlx::SqliteConnection, RunError> {
        open_reader(&self.file).await
    }
}

pub async fn open_reader(file: &str) -> Result<sqlx::SqliteConnection, RunError> {
    use sqlx::ConnectOptions;
    sqlx::sqlite::SqliteConnectOptions::new().filename(file).busy_timeout(Duration::from_secs(10)).connect().await.map_err(infra_err)
}

#[derive(Clone)]
pub struct Http {
    pub client: reqwest::Client,
    pub base: String,
}
/// Status code and JSON body (or the raw text as a JSON string)
pub type Resp = (u16, Value);
impl Http {
    pub fn new(port: u16) -> Http {
        Http {
            client: reqwest::Client::builder().timeout(Duration::from_secs(30)).build().expect("client"),
            base: format!("http://127.0.0.1:{port}"),
        }
    }
    /// For a server that may have to wait for its database
    pub fn patient(port: u16) -> Http {
        Http { client: reqwest::Client::builder().timeout(Duration::from_secs(120)).build().expect("client"), ..Http::new(port) }
    }
    async fn finish(&self, r: reqwest::RequestBuilder) -> Result<Resp, RunError> {
        let r = r.send().await.map_err(|e| infra_err(format!("http: {e:?}")))?;
        let code = r.status().as_u16();
        let text = r.text().await.map_err(infra_err)?;
        Ok((code, serde_json::from_str(&text).unwrap_or(Value::String(text))))
    }
    pub async fn get(&self, path: &str) -> Result<Resp, RunError> {
        self.finish(self.client.get(format!("{}{path}", self.base))).await
    }
    pub async fn post(&self, path: &str, body: &Value) -> Result<Resp, RunError> {
        self.finish(self.client.post(format!("{}{path}", self.base)).json(body)).await
    }
    pub async fn post_headers(&self, path: &str, body: &Value, headers: &[(String, String)]) -> Result<Resp, RunError> {
        let mut r = self.client.post(format!("{}{path}", self.base)).json(body);
        for (k, v) in headers {
            r = r.header(k, v);
        }
        self.finish(r).await
    }
    pub async fn submit(&self, body: &Value) -> Result<u64, RunError> {
        match self.post("/producer/submissions", body).await? {
            (200, v) if v.is_u64() => Ok(v.as_u64().unwrap()),
            (c, v) => fail_p(&["P01", "P24", "P26"], "a valid submission was refused", format!("{c} {v} for {body}")),
        }
    }
    pub async fn status(&self, id: u64) -> Result<Value, RunError> {
        match self.get(&format!("/producer/submissions/{id}")).await? {
            (200, v) => Ok(v),
            (c, v) => fail_p(&["P01", "P05", "P13", "P26"], "status of a submission cannot be read", format!("{c} {v} for {id}")),
        }
    }
    pub async fn cancel(&self, id: u64) -> Result<Resp, RunError> {
        self.post(&format!("/producer/submissions/cancel/{id}"), &Value::Null).await
    }
    pub async fn prefix(&self, p: &str) -> Result<Resp, RunError> {
        let mut url = url::Url::parse(&format!("{}/producer/submissions/lookup_id_by_prefix/", self.base)).map_err(infra_err)?;
        let enc: String = p.bytes().map(|b| if b.is_ascii_alphanumeric() || b == b'-' || b == b'_' { (b as char).to_string() } else { format!("%{b:02X}") }).collect();
        url = url.join(&enc).map_err(infra_err)?;
        self.finish(self.client.get(url)).await
    }
    pub async fn meta(&self, m: &Value) -> Result<Resp, RunError> {
        self.post("/producer/submissions/lookup_ids_by_strategic_metadata", m).await
    }
}

/// A message received by a raw consumer
#[derive(Debug, Clone)]
pub struct Got {
    pub at: Instant,
    pub msg: Value,
}

struct Shared {
    got: Mutex<VecDeque<Got>>,
    closed: AtomicBool,
    notify: Arc<tokio::sync::Notify>,
}

type Ws = tokio_tungstenite::WebSocketStream<tokio_tungstenite::MaybeTlsStream<tokio::net::TcpStream>>;

/// A raw consumer. A background task reads (and thereby answers pings) unless silenced.
pub struct Raw {
    sink: futures::stream::SplitSink<Ws, Message>,
    shared: Arc<Shared>,
    reader: tokio::task::JoinHandle<()>,
    pub next_nonce: u64,
    pub init: Value,
}

pub fn cbor(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    ciborium::into_writer(v, &mut out).expect("cbor");
    out
}

impl Raw {
    /// `notify` is pinged for each received message (share one among the consumers of a case)
    pub async fn connect(port: u16, notify: Arc<tokio::sync::Notify>) -> Result<Raw, RunError> {
        let fut = async {
            let (mut ws, _) = tokio_tungstenite::connect_async_with_config(format!("ws://127.0.0.1:{port}/consumer"), None, true).await.map_err(|e| infra_err(format!("ws connect: {e}")))?;
            let init = loop {
                match ws.next().await {
                    Some(Ok(Message::Binary(b))) => break ciborium::from_reader::<Value, _>(&*b).map_err(infra_err)?,
                    Some(Ok(Message::Ping(_) | Message::Pong(_))) => {}
                    other => return infra(format!("no init message: {other:?}")),
                }
            };
            Ok((ws, init))
        };
        let (ws, init) = tokio::time::timeout(Duration::from_secs(20), fut).await.map_err(|_| infra_err("ws connect timed out"))??;
        if init.get("Init").is_none() {
            return fail_p(&["P18"], "first message of the server is not the initialization", format!("{init}"));
        }
        let (sink, mut stream) = ws.split();
        let shared = Arc::new(Shared { got: Mutex::default(), closed: AtomicBool::new(false), notify });
        let s2 = shared.clone();
        let reader = tokio::spawn(async move {
            while let Some(m) = stream.next().await {
                match m {
                    Ok(Message::Binary(b)) => {
                        let at = Instant::now();
                        let msg = ciborium::from_reader::<Value, _>(&*b).unwrap_or_else(|e| json!({"Undecodable": e.to_string()}));
                        s2.got.lock().unwrap().push_back(Got { at, msg });
                        s2.notify.notify_waiters();
                    }
                    Ok(Message::Close(_)) | Err(_) => break,
                    Ok(_) => {}
                }
            }
            s2.closed.store(true, Ordering::SeqCst);
            s2.notify.notify_waiters();
        });
        Ok(Raw { sink, shared, reader, next_nonce: 0, init })
    }
    pub fn closed(&self) -> bool {
        self.shared.closed.load(Ordering::SeqCst)
    }
    pub fn pop(&self) -> Option<Got> {
        self.shared.got.lock().unwrap().pop_front()
    }
    pub async fn send_raw(&mut self, m: Message) -> bool {
        matches!(tokio::time::timeout(Duration::from_secs(20), self.sink.send(m)).await, Ok(Ok(())))
    }
    pub async fn send(&mut self, contents: Value) -> u64 {
        let nonce = self.next_nonce;
        self.next_nonce += 1;
        self.send_nonce(nonce, contents).await;
        nonce
    }
    pub async fn send_nonce(&mut self, nonce: u64, contents: Value) -> bool {
        let m = json!({"nonce": nonce, "contents": contents});
        self.send_raw(Message::Binary(cbor(&m).into())).await
    }
    pub async fn reserve(&mut self, max: u64, strategy: &Value) -> u64 {
        self.send(json!({"WantToReserveChunks": {"max": max, "strategy": strategy}})).await
    }
    pub async fn complete(&mut self, id: (u64, u64), out: &Option<Vec<u8>>) {
        self.send(json!({"CompleteChunk": {"id": {"submission_id": id.0, "chunk_index": id.1}, "output_content": out}})).await;
    }
    pub async fn fail(&mut self, id: (u64, u64), text: &str) {
        self.send(json!({"FailChunk": {"id": {"submission_id": id.0, "chunk_index": id.1}, "failure": text}})).await;
    }
    /// Close politely with a websocket close frame
    pub async fn close(mut self) {
        let _ = self.send_raw(Message::Close(None)).await;
        let _ = tokio::time::timeout(Duration::from_millis(500), &mut self.reader).await;
        self.reader.abort();
    }
    /// Drop the TCP connection without a word
    pub async fn drop_hard(self) {
        self.reader.abort();
        let _ = self.reader.await;
        drop(self.sink);
    }
    /// Stop reading (and so stop answering pings) but keep the connection open
    pub fn silence(self) -> Silent {
        self.reader.abort();
        Silent { _sink: self.sink, _reader: self.reader }
    }
    /// Wait for one message
    pub async fn recv(&self, timeout: Duration) -> Option<Got> {
        let end = tokio::time::Instant::now() + timeout;
        loop {
            let n = self.shared.notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if let Some(g) = self.pop() {
                return Some(g);
            }
            if self.closed() {
                return None;
            }
            if tokio::time::timeout_at(end, n).await.is_err() {
                return self.pop();
            }
        }
    }
}
pub struct Silent {
    _sink: futures::stream::SplitSink<Ws, Message>,
    _reader: tokio::task::JoinHandle<()>,
}

/// The chunks in a `ChunksReserved` reply
#[derive(Debug, Clone)]
pub struct GotChunk {
    pub sub: u64,
    pub idx: u64,
    pub chunk: Value,
    pub submission: Value,
}
#[derive(Debug, Clone)]
pub enum Parsed {
    Reserved { nonce: u64, chunks: Vec<GotChunk> },
    Refused { nonce: u64, err: Value },
    Expired { sub: u64, idx: u64 },
    Other(Value),
}
pub fn parse(msg: &Value) -> Parsed {
    if let Some(s) = msg.get("Sync") {
        let nonce = s["nonce"].as_u64().unwrap_or(u64::MAX);
        let r = &s["contents"]["ChunksReserved"];
        if let Some(ok) = r.get("Ok").and_then(|o| o.as_array()) {
            let mut chunks = vec![];
            for pair in ok {
                let (c, s) = (&pair[0], &pair[1]);
                match (c["submission_id"].as_u64(), c["chunk_index"].as_u64()) {
                    (Some(sub), Some(idx)) => chunks.push(GotChunk { sub, idx, chunk: c.clone(), submission: s.clone() }),
                    _ => return Parsed::Other(msg.clone()),
                }
            }
            return Parsed::Reserved { nonce, chunks };
        }
        if let Some(e) = r.get("Err") {
            return Parsed::Refused { nonce, err: e.clone() };
        }
    }
    if let Some(a) = msg.get("Async").and_then(|a| a.get("ChunkReservationExpired")) {
        if let (Some(sub), Some(idx)) = (a["submission_id"].as_u64(), a["chunk_index"].as_u64()) {
            return Parsed::Expired { sub, idx };
        }
    }
    Parsed::Other(msg.clone())
}
