#![allow(dead_code)]
use futures::{SinkExt, StreamExt};
use serde_json::{json, Value};
use std::sync::{atomic::AtomicBool, Arc};
use std::time::Duration;
use tokio_tungstenite::tungstenite::Message;
use tokio_util::sync::CancellationToken;

pub fn scratch() -> String {
    std::env::args().nth(1).expect("scratch dir")
}
pub struct Cfg {
    pub expiration: Duration,
    pub heartbeat: Duration,
    pub missable: usize,
    pub max_retries: u32,
    pub max_submissions: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { expiration: Duration::from_secs(600), heartbeat: Duration::from_secs(10), missable: 3, max_retries: 3, max_submissions: 1000 }
    }
}
pub struct Server {
    pub port: u16,
    pub pools: opsqueue::db::DBPools,
    pub token: CancellationToken,
    pub task: tokio::task::JoinHandle<()>,
    pub http: reqwest::Client,
}
impl Server {
    pub async fn start(file: &str, c: Cfg) -> Server {
        use std::num::NonZero;
        let pools = opsqueue::db::open_and_setup(file, NonZero::new(8).unwrap()).await;
        let config: &'static _ = Box::leak(Box::new(opsqueue::config::Config {
            database_filename: file.into(),
            reservation_expiration: c.expiration.into(),
            heartbeat_interval: c.heartbeat.into(),
            max_missable_heartbeats: c.missable,
            max_chunk_retries: c.max_retries,
            max_submissions_returned: opsqueue::common::MaxSubmissions::new(NonZero::new(c.max_submissions).unwrap()).unwrap(),
            ..Default::default()
        }));
        let token = CancellationToken::new();
        let prom = opsqueue::prometheus::setup_prometheus();
        let router = opsqueue::server::build_router(config, pools.clone(), c.expiration, &token, Arc::new(AtomicBool::new(true)), prom);
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let port = l.local_addr().unwrap().port();
        let t = token.clone();
        let task = tokio::spawn(async move {
            let _ = axum::serve(l, router).with_graceful_shutdown(t.cancelled_owned()).await;
        });
        Server { port, pools, token, task, http: reqwest::Client::new() }
    }
    pub async fn get(&self, path: &str) -> (u16, Value) {
        let r = self.http.get(format!("http://127.0.0.1:{}/producer/{path}", self.port)).send().await.unwrap();
        (r.status().as_u16(), serde_json::from_str(&r.text().await.unwrap()).unwrap_or(Value::Null))
    }
    pub async fn post(&self, path: &str, body: &Value) -> (u16, Value) {
        let r = self.http.post(format!("http://127.0.0.1:{}/producer/{path}", self.port)).json(body).send().await.unwrap();
        (r.status().as_u16(), serde_json::from_str(&r.text().await.unwrap()).unwrap_or(Value::Null))
    }
    pub async fn submit(&self, n: usize, strategic: Value) -> u64 {
        let contents: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8]).collect();
        self.post("submissions", &json!({"chunk_contents": {"Direct": {"contents": contents}}, "metadata": null, "strategic_metadata": strategic, "chunk_size": 1})).await.1.as_u64().unwrap()
    }
    pub async fn status(&self, id: u64) -> Value {
        self.get(&format!("submissions/{id}")).await.1
    }
    pub async fn state(&self, id: u64) -> String {
        self.status(id).await.as_object().map(|o| o.keys().next().unwrap().clone()).unwrap_or("null".into())
    }
    pub async fn cancel(&self, id: u64) -> (u16, Value) {
        self.post(&format!("submissions/cancel/{id}"), &Value::Null).await
    }
    pub async fn consumer(&self) -> Consumer {
        let (ws, _) = tokio_tungstenite::connect_async_with_config(format!("ws://127.0.0.1:{}/consumer", self.port), None, true).await.unwrap();
        Consumer { ws, nonce: 0 }
    }
}
pub struct Consumer {
    pub ws: tokio_tungstenite::WebSocketStream<tokio_tungstenite::MaybeTlsStream<tokio::net::TcpStream>>,
    pub nonce: u64,
}
impl Consumer {
    pub async fn send(&mut self, contents: Value) {
        let mut b = vec![];
        ciborium::into_writer(&json!({"nonce": self.nonce, "contents": contents}), &mut b).unwrap();
        self.nonce += 1;
        self.ws.send(Message::Binary(b.into())).await.unwrap();
    }
    pub async fn ask(&mut self, max: u64, strategy: Value) {
        self.send(json!({"WantToReserveChunks": {"max": max, "strategy": strategy}})).await;
    }
    /// Next message other than the initialization
    pub async fn recv(&mut self, ms: u64) -> Option<Value> {
        let until = tokio::time::Instant::now() + Duration::from_millis(ms);
        loop {
            match tokio::time::timeout_at(until, self.ws.next()).await {
                Ok(Some(Ok(Message::Binary(b)))) => {
                    let v: Value = ciborium::from_reader(&*b).unwrap();
                    if v.get("Init").is_none() {
                        return Some(v);
                    }
                }
                Ok(Some(Ok(Message::Ping(_) | Message::Pong(_)))) => {}
                _ => return None,
            }
        }
    }
    /// Ask for chunks and return (submission, index) of those received within `ms`
    pub async fn reserve(&mut self, max: u64, strategy: Value, ms: u64) -> Vec<(u64, u64)> {
        self.ask(max, strategy).await;
        self.chunks(ms).await
    }
    pub async fn chunks(&mut self, ms: u64) -> Vec<(u64, u64)> {
        let Some(v) = self.recv(ms).await else { return vec![] };
        let ok = &v["Sync"]["contents"]["ChunksReserved"]["Ok"];
        ok.as_array().map(|a| a.iter().map(|p| (p[0]["submission_id"].as_u64().unwrap(), p[0]["chunk_index"].as_u64().unwrap())).collect()).unwrap_or_default()
    }
    pub async fn complete(&mut self, id: (u64, u64)) {
        self.send(json!({"CompleteChunk": {"id": {"submission_id": id.0, "chunk_index": id.1}, "output_content": [7]}})).await;
    }
    pub async fn fail(&mut self, id: (u64, u64), text: &str) {
        self.send(json!({"FailChunk": {"id": {"submission_id": id.0, "chunk_index": id.1}, "failure": text}})).await;
    }
}
pub async fn rest(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}
