//! Identifiers and conversions (P17), and the wire format of all messages (P18).
use crate::engine::*;
use crate::hist::Strat;
use crate::rng::Rng;
use crate::srv::cbor;
use crate::util::*;
use axum::extract::ws;
use opsqueue::common::chunk::{Chunk, ChunkCompleted, ChunkFailed, ChunkId, ChunkIndex, ChunkSize};
use opsqueue::common::errors::{SubmissionNotCancellable, SubmissionNotFound, TooManyMatchingSubmissions};
use opsqueue::common::submission::{Submission, SubmissionId, SubmissionStatus};
use opsqueue::consumer::common::{ClientToServerMessage, Envelope, ServerToClientMessage};
use opsqueue::producer::InsertSubmission;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use sqlx::{Connection as _, Row};
use std::collections::BTreeSet;
use tokio_tungstenite::tungstenite;

pub fn u64_edgy(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => rng.below(4),
        1 => (1 << 63) - 1 - rng.below(3),
        2 => (1 << 63) + rng.below(3),
        3 => u64::MAX - rng.below(3),
        4 => (1 << 31) - 1 + rng.below(3),
        5 => (1 << 32) - 1 + rng.below(3),
        6 => (1 << 53) - 1 + rng.below(3),
        _ => rng.u64() >> rng.below(64),
    }
}
fn u63_edgy(rng: &mut Rng) -> u64 {
    u64_edgy(rng) & ((1 << 63) - 1)
}

// ---------------------------------------------------------------------------------------------
// P17: conversions

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NumCase {
    pub values: Vec<u64>,
}
pub struct Conversions;

macro_rules! same {
    ($got:expr, $want:expr, $what:expr, $v:expr) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return fail_p_sound(&["P17"], format!("{} does not keep the value", $what), format!("{}: {:?}, required {:?}", $v, g, w));
        }
    }};
}

impl Prop for Conversions {
    type Case = NumCase;
    fn name(&self) -> &'static str {
        "conversions"
    }
    fn rule(&self) -> &'static str {
        "values on both sides of the supported range were converted"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> NumCase {
        NumCase { values: (0..rng.range(4, 24)).map(|_| u64_edgy(rng)).collect() }
    }
    fn shrink(&self, c: &NumCase) -> Vec<NumCase> {
        shrink_vec(&c.values).into_iter().map(|values| NumCase { values }).collect()
    }
    fn run(&self, case: &NumCase, _: Mode) -> RunResult {
        let mut info = CaseInfo::default();
        let (mut inside, mut outside) = (0, 0);
        for &v in &case.values {
            info.evals += 1;
            let ok = v < 1 << 63;
            let text = v.to_string();
            let i = v as i64;
            let sid = SubmissionId::try_from(v);
            let cix = ChunkIndex::try_from(v);
            same!(sid.is_ok(), ok, "refusing a submission id out of range", v);
            same!(cix.is_ok(), ok, "refusing a chunk index out of range", v);
            same!(ChunkIndex::try_from(v as usize).is_ok(), ok, "refusing a chunk count out of range", v);
            same!(ChunkIndex::new(v).is_ok(), ok, "refusing a chunk count out of range", v);
            same!(SubmissionId::try_from(i).is_ok(), i >= 0, "refusing a negative submission id", i);
            same!(ChunkIndex::try_from(i).is_ok(), i >= 0, "refusing a negative chunk index", i);
            same!(serde_json::from_str::<SubmissionId>(&text).is_ok(), ok, "decoding a submission id out of range", v);
            same!(serde_json::from_str::<ChunkIndex>(&text).is_ok(), ok, "decoding a chunk index out of range", v);
            same!(ciborium::from_reader::<SubmissionId, _>(&*cbor(&json!(v))).is_ok(), ok, "decoding a submission id out of range", v);
            same!(ciborium::from_reader::<ChunkIndex, _>(&*cbor(&json!(v))).is_ok(), ok, "decoding a chunk index out of range", v);
            if i < 0 {
                same!(serde_json::from_str::<SubmissionId>(&i.to_string()).is_ok(), false, "decoding a negative submission id", i);
                same!(serde_json::from_str::<ChunkIndex>(&i.to_string()).is_ok(), false, "decoding a negative chunk index", i);
                same!(ciborium::from_reader::<SubmissionId, _>(&*cbor(&json!(i))).is_ok(), false, "decoding a negative submission id", i);
            }
            let max_ok = v > 0 && v < i64::MAX as u64;
            let parsed = text.parse::<opsqueue::common::MaxSubmissions>();
            same!(parsed.is_ok(), max_ok, "refusing a limit out of range", v);
            if let Ok(m) = parsed {
                same!(u64::from(m), v, "a limit", v);
                same!(m.to_string(), text.clone(), "a limit as text", v);
            }
            // the chunk size is any signed number
            same!(serde_json::to_value(ChunkSize(i)).ok(), Some(json!(i)), "a chunk size", i);
            let (Ok(sid), Ok(cix)) = (sid, cix) else {
                outside += 1;
                continue;
            };
            inside += 1;
            same!(u64::from(sid), v, "a submission id", v);
            same!(i64::from(sid), i, "a submission id", v);
            same!(u64::from(ux::u63::from(sid)), v, "a submission id", v);
            same!(SubmissionId::from(ux::u63::new(v)), sid, "a submission id", v);
            same!(SubmissionId::try_from(i).ok(), Some(sid), "a submission id", v);
            same!(sid.to_string(), text.clone(), "a submission id as text", v);
            same!(serde_json::to_string(&sid).ok(), Some(text.clone()), "a submission id as JSON", v);
            same!(serde_json::from_str::<SubmissionId>(&text).ok(), Some(sid), "a submission id as JSON", v);
            same!(u64::from(cix), v, "a chunk index", v);
            same!(i64::from(cix), i, "a chunk index", v);
            same!(u64::from(ux::u63::from(cix)), v, "a chunk index", v);
            same!(ChunkIndex::try_from(i).ok(), Some(cix), "a chunk index", v);
            same!(ChunkIndex::from(ux::u63::new(v)), cix, "a chunk index", v);
            same!(cix.to_string(), text.clone(), "a chunk index as text", v);
            same!(serde_json::to_string(&cix).ok(), Some(text.clone()), "a chunk index as JSON", v);
            same!(cix == v, true, "a chunk index", v);
            let mut b = vec![];
            ciborium::into_writer(&sid, &mut b).map_err(infra_err)?;
            same!(ciborium::from_reader::<SubmissionId, _>(&*b).ok(), Some(sid), "a submission id as CBOR", v);
            let other = case.values[0] & ((1 << 63) - 1);
            let o = SubmissionId::try_from(other).map_err(|_| infra_err("other"))?;
            same!(sid.cmp(&o), v.cmp(&other), "the order of submission ids", v);
            let oc = ChunkIndex::try_from(other).map_err(|_| infra_err("other"))?;
            same!(cix.cmp(&oc), v.cmp(&other), "the order of chunk indexes", v);
            let id = ChunkId::from((sid, oc));
            same!((u64::from(id.submission_id), u64::from(id.chunk_index)), (v, other), "a chunk id", v);
            same!(<(SubmissionId, ChunkIndex)>::from(id), (sid, oc), "a chunk id", v);
            same!(serde_json::to_value(id).ok(), Some(json!({"submission_id": v, "chunk_index": other})), "a chunk id as JSON", v);
            // bits 22.. are milliseconds since the Unix epoch
            same!(sid.timestamp().timestamp_millis(), (v >> 22) as i64, "the creation time in an id", v);
            let st: std::time::SystemTime = (&sid).into();
            same!(st.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).ok(), Some(v >> 22), "the creation time in an id", v);
        }
        if inside > 0 && outside > 0 {
            info.nontrivial = true;
        }
        info.tag_n("in-range", inside);
        info.tag_n("out-of-range", outside);
        Ok(info)
    }
}

/// Through the database: what is bound comes back, and what is out of range is refused.
pub struct NumStorage;
impl Prop for NumStorage {
    type Case = NumCase;
    fn name(&self) -> &'static str {
        "storage"
    }
    fn rule(&self) -> &'static str {
        "values were stored and read back"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> NumCase {
        NumCase { values: (0..rng.range(8, 40)).map(|_| u64_edgy(rng)).collect() }
    }
    fn shrink(&self, c: &NumCase) -> Vec<NumCase> {
        shrink_vec(&c.values).into_iter().map(|values| NumCase { values }).collect()
    }
    fn run(&self, case: &NumCase, _: Mode) -> RunResult {
        rt().block_on(async {
            let mut info = CaseInfo { nontrivial: true, ..Default::default() };
            let mut c = sqlx::SqliteConnection::connect("sqlite::memory:").await.map_err(infra_err)?;
            for &v in &case.values {
                info.evals += 1;
                let i = v as i64;
                let raw = sqlx::query("SELECT ?").bind(i).fetch_one(&mut c).await.map_err(infra_err)?;
                same!(raw.try_get::<SubmissionId, _>(0).ok().map(u64::from), (i >= 0).then_some(v), "reading a stored submission id", i);
                same!(raw.try_get::<ChunkIndex, _>(0).ok().map(u64::from), (i >= 0).then_some(v), "reading a stored chunk index", i);
                let (Ok(sid), Ok(cix)) = (SubmissionId::try_from(v), ChunkIndex::try_from(v)) else { continue };
                let row = sqlx::query("SELECT ?, ?, typeof(?), typeof(?)").bind(sid).bind(cix).bind(sid).bind(cix).fetch_one(&mut c).await.map_err(infra_err)?;
                for k in 0..2 {
                    same!(row.try_get::<i64, _>(k).ok(), Some(i), "storing an identifier", v);
                    same!(row.try_get::<String, _>(k + 2).ok(), Some("integer".to_string()), "storing an identifier", v);
                }
            }
            Ok(info)
        })
    }
}

// ---------------------------------------------------------------------------------------------
// P17: new identifiers

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdCase {
    pub threads: u32,
    pub per: u32,
    pub seed: u64,
}
pub struct NewIds;
impl Prop for NewIds {
    type Case = IdCase;
    fn name(&self) -> &'static str {
        "new-ids"
    }
    fn rule(&self) -> &'static str {
        "several threads made ids at the same time"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> IdCase {
        IdCase { threads: rng.range(1, 6) as u32, per: rng.range(10, 3000) as u32, seed: rng.u64() }
    }
    fn threads(&self) -> usize {
        2
    }
    fn run(&self, case: &IdCase, _: Mode) -> RunResult {
        let barrier = std::sync::Barrier::new(case.threads as usize);
        let ms = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
        // `floor` is the largest id whose creation has certainly ended
        let floor = std::sync::atomic::AtomicU64::new(0);
        let out = std::thread::scope(|s| {
            let hs: Vec<_> = (0..case.threads)
                .map(|t| {
                    let (barrier, floor) = (&barrier, &floor);
                    s.spawn(move || {
                        let mut rng = Rng::derive(case.seed, "ids", t as u64);
                        barrier.wait();
                        let mut v = vec![];
                        for _ in 0..case.per {
                            let f = floor.load(std::sync::atomic::Ordering::SeqCst);
                            let t0 = ms();
                            let id = u64::from(SubmissionId::new());
                            let t1 = ms();
                            floor.fetch_max(id, std::sync::atomic::Ordering::SeqCst);
                            v.push((f, t0, id, t1));
                            if rng.chance(1, 50) {
                                std::thread::yield_now();
                            }
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        let mut seen = BTreeSet::new();
        let mut info = CaseInfo { nontrivial: case.threads > 1, ..Default::default() };
        for &(f, t0, id, t1) in out.iter().flatten() {
            info.evals += 1;
            if !seen.insert(id) {
                return fail_p_sound(&["P17"], "the same id was handed out twice", format!("{id}"));
            }
            if id <= f {
                return fail_p_sound(&["P17"], "a new id is not larger than an earlier one", format!("{id} after {f}"));
            }
            if id >= 1 << 63 {
                return fail_p_sound(&["P17"], "a new id is out of range", format!("{id}"));
            }
            // other cases run at the same time, and an exhausted millisecond may be borrowed from
            let t = SubmissionId::try_from(id).map_err(|_| infra_err("id"))?.timestamp().timestamp_millis();
            if t + 3000 < t0 as i64 || t > t1 as i64 + 3000 {
                return fail_p(&["P17"], "an id does not carry its creation time", format!("{id}: {t}, made between {t0} and {t1}"));
            }
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------------------------------------
// P18

const KINDS: [&str; 16] = [
    "ClientToServer", "ServerToClient", "InsertSubmission", "SubmissionStatus", "SubmissionNotFound", "SubmissionNotCancellable",
    "TooManyMatchingSubmissions", "OptionalId", "Ids", "Chunk", "ChunkCompleted", "ChunkFailed", "Submission", "Strategy", "ChunkId", "Init",
];

fn content(rng: &mut Rng) -> Value {
    match rng.below(5) {
        0 => Value::Null,
        1 => json!([]),
        2 => json!(vec![0u8, 255, 128, 23, 24]),
        _ => json!(rng.bytes(40)),
    }
}
fn strategic(rng: &mut Rng) -> Value {
    let mut m = serde_json::Map::new();
    for _ in 0..rng.below(4) {
        m.insert(rng.string_edgy(5), json!(rng.i64_edgy()));
    }
    Value::Object(m)
}
fn prefix(rng: &mut Rng) -> Value {
    if rng.chance(1, 3) { Value::Null } else { json!(rng.string_edgy(8)) }
}
fn time(rng: &mut Rng) -> String {
    let t = chrono::DateTime::from_timestamp(rng.below(4_000_000_000) as i64, (rng.below(1000) * 1_000_000) as u32).unwrap();
    t.to_rfc3339_opts(chrono::SecondsFormat::AutoSi, true)
}
fn chunk_id(rng: &mut Rng) -> Value {
    json!({"submission_id": u63_edgy(rng), "chunk_index": u63_edgy(rng)})
}
fn chunk(rng: &mut Rng) -> Value {
    json!({"submission_id": u63_edgy(rng), "chunk_index": u63_edgy(rng), "input_content": content(rng), "retries": rng.i64_edgy()})
}
fn chunk_failed(rng: &mut Rng) -> Value {
    json!({"submission_id": u63_edgy(rng), "chunk_index": u63_edgy(rng), "input_content": content(rng), "failure": rng.string_edgy(12), "failed_at": time(rng)})
}
fn carrier(rng: &mut Rng) -> String {
    if rng.chance(1, 2) { "{}".into() } else { json!({"traceparent": rng.string_edgy(6)}).to_string() }
}
fn submission(rng: &mut Rng) -> Value {
    json!({"id": u63_edgy(rng), "prefix": prefix(rng), "chunks_total": u63_edgy(rng), "chunks_done": u63_edgy(rng), "chunk_size": rng.i64_edgy(),
        "metadata": content(rng), "strategic_metadata": strategic(rng), "otel_trace_carrier": carrier(rng)})
}
fn completed(rng: &mut Rng) -> Value {
    json!({"id": u63_edgy(rng), "prefix": prefix(rng), "chunks_total": u63_edgy(rng), "chunk_size": rng.i64_edgy(),
        "metadata": content(rng), "strategic_metadata": strategic(rng), "completed_at": time(rng), "otel_trace_carrier": carrier(rng)})
}
fn failed(rng: &mut Rng) -> Value {
    let done = if rng.chance(1, 4) { Value::Null } else { json!(u63_edgy(rng)) };
    json!({"id": u63_edgy(rng), "prefix": prefix(rng), "chunks_total": u63_edgy(rng), "chunks_done": done, "chunk_size": rng.i64_edgy(),
        "metadata": content(rng), "strategic_metadata": strategic(rng), "failed_at": time(rng), "failed_chunk_id": u63_edgy(rng), "otel_trace_carrier": carrier(rng)})
}
fn cancelled(rng: &mut Rng) -> Value {
    json!({"id": u63_edgy(rng), "prefix": prefix(rng), "chunks_total": u63_edgy(rng), "chunks_done": u63_edgy(rng),
        "metadata": content(rng), "strategic_metadata": strategic(rng), "cancelled_at": time(rng)})
}
fn strategy(rng: &mut Rng) -> Value {
    let keys: Vec<String> = (0..3).map(|_| rng.string_edgy(4)).collect();
    Strat::generate(rng, &keys, 6).json()
}
fn client_message(rng: &mut Rng) -> Value {
    let c = match rng.below(3) {
        0 => json!({"WantToReserveChunks": {"max": u64_edgy(rng), "strategy": strategy(rng)}}),
        1 => json!({"CompleteChunk": {"id": chunk_id(rng), "output_content": content(rng)}}),
        _ => json!({"FailChunk": {"id": chunk_id(rng), "failure": rng.string_edgy(12)}}),
    };
    json!({"nonce": u64_edgy(rng), "contents": c})
}
fn init(rng: &mut Rng) -> Value {
    json!({"Init": {"max_missable_heartbeats": u64_edgy(rng), "heartbeat_interval": {"secs": u64_edgy(rng), "nanos": rng.below(1_000_000_000)}, "version_info": rng.string_edgy(6), "conn_id": rng.string_edgy(6)}})
}
fn server_message(rng: &mut Rng) -> Value {
    match rng.below(5) {
        0 => json!({"Async": {"ChunkReservationExpired": chunk_id(rng)}}),
        1 => init(rng),
        2 => json!({"Sync": {"nonce": u64_edgy(rng), "contents": {"ChunksReserved": {"Err": []}}}}),
        _ => {
            let n = rng.below(4);
            let v: Vec<Value> = (0..n).map(|_| json!([chunk(rng), submission(rng)])).collect();
            json!({"Sync": {"nonce": u64_edgy(rng), "contents": {"ChunksReserved": {"Ok": v}}}})
        }
    }
}
fn insert(rng: &mut Rng) -> Value {
    let cc = if rng.chance(1, 2) {
        json!({"SeeObjectStorage": {"prefix": rng.string_edgy(8), "count": u63_edgy(rng)}})
    } else {
        let n = rng.below(5);
        json!({"Direct": {"contents": (0..n).map(|_| content(rng)).collect::<Vec<_>>()}})
    };
    let size = if rng.chance(1, 3) { Value::Null } else { json!(rng.i64_edgy()) };
    json!({"chunk_contents": cc, "metadata": content(rng), "strategic_metadata": strategic(rng), "chunk_size": size})
}

fn document(kind: &str, rng: &mut Rng) -> Value {
    match kind {
        "ClientToServer" => client_message(rng),
        "ServerToClient" => server_message(rng),
        "InsertSubmission" => insert(rng),
        "SubmissionStatus" => match rng.below(4) {
            0 => json!({"InProgress": submission(rng)}),
            1 => json!({"Completed": completed(rng)}),
            2 => json!({"Failed": [failed(rng), chunk_failed(rng)]}),
            _ => json!({"Cancelled": cancelled(rng)}),
        },
        "SubmissionNotFound" => json!(u63_edgy(rng)),
        "SubmissionNotCancellable" => match rng.below(3) {
            0 => json!({"Completed": completed(rng)}),
            1 => json!({"Failed": [failed(rng), chunk_failed(rng)]}),
            _ => json!({"Cancelled": cancelled(rng)}),
        },
        "TooManyMatchingSubmissions" => json!(u64_edgy(rng)),
        "OptionalId" => if rng.chance(1, 3) { Value::Null } else { json!(u63_edgy(rng)) },
        "Ids" => json!((0..rng.below(6)).map(|_| u63_edgy(rng)).collect::<Vec<_>>()),
        "Chunk" => chunk(rng),
        "ChunkCompleted" => json!({"submission_id": u63_edgy(rng), "chunk_index": u63_edgy(rng), "output_content": content(rng), "completed_at": time(rng)}),
        "ChunkFailed" => chunk_failed(rng),
        "Submission" => submission(rng),
        "Strategy" => strategy(rng),
        "ChunkId" => chunk_id(rng),
        "Init" => init(rng),
        k => unreachable!("{k}"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WireCase {
    /// The documented form of a message
    Doc { kind: String, doc: Value },
    /// The same with bytes changed (position, value) and cut
    Broken { kind: String, doc: Value, edits: Vec<(u32, u8)>, cut: Option<u32> },
    Garbage { kind: String, bytes: Vec<u8> },
}
pub struct Wire;

/// Decode in each way that exists, encode in each way that exists.
struct Codec {
    name: &'static str,
    /// decode, encode again; Err = refused
    again: fn(&[u8]) -> Result<Vec<u8>, String>,
}
fn json_again<T: Serialize + DeserializeOwned>(b: &[u8]) -> Result<Vec<u8>, String> {
    let t: T = serde_json::from_slice(b).map_err(|e| e.to_string())?;
    serde_json::to_vec(&t).map_err(|e| e.to_string())
}
fn cbor_again<T: Serialize + DeserializeOwned>(b: &[u8]) -> Result<Vec<u8>, String> {
    let t: T = ciborium::from_reader(b).map_err(|e| e.to_string())?;
    let mut out = vec![];
    ciborium::into_writer(&t, &mut out).map_err(|e| e.to_string())?;
    Ok(out)
}
fn tung_again<T>(b: &[u8]) -> Result<Vec<u8>, String>
where
    T: TryFrom<tungstenite::Message>,
    T::Error: std::fmt::Display,
    tungstenite::Message: From<T>,
{
    let t = T::try_from(tungstenite::Message::Binary(b.to_vec().into())).map_err(|e| e.to_string())?;
    match tungstenite::Message::from(t) {
        tungstenite::Message::Binary(b) => Ok(b.to_vec()),
        other => Err(format!("not a binary message: {other:?}")),
    }
}
fn axum_again<T>(b: &[u8]) -> Result<Vec<u8>, String>
where
    T: TryFrom<ws::Message>,
    T::Error: std::fmt::Display,
    ws::Message: From<T>,
{
    let t = T::try_from(ws::Message::Binary(b.to_vec().into())).map_err(|e| e.to_string())?;
    match ws::Message::from(t) {
        ws::Message::Binary(b) => Ok(b.to_vec()),
        other => Err(format!("not a binary message: {other:?}")),
    }
}
fn codecs(kind: &str) -> (Vec<Codec>, bool) {
    let c = |name, again| Codec { name, again };
    match kind {
        "ClientToServer" => (vec![c("tungstenite", tung_again::<Envelope<ClientToServerMessage>>), c("axum", axum_again::<Envelope<ClientToServerMessage>>)], true),
        "ServerToClient" | "Init" => (vec![c("tungstenite", tung_again::<ServerToClientMessage>), c("axum", axum_again::<ServerToClientMessage>)], true),
        "InsertSubmission" => (vec![c("json", json_again::<InsertSubmission>)], false),
        "SubmissionStatus" => (vec![c("json", json_again::<SubmissionStatus>)], false),
        "SubmissionNotFound" => (vec![c("json", json_again::<SubmissionNotFound>)], false),
        "SubmissionNotCancellable" => (vec![c("json", json_again::<SubmissionNotCancellable>)], false),
        "TooManyMatchingSubmissions" => (vec![c("json", json_again::<TooManyMatchingSubmissions>)], false),
        "OptionalId" => (vec![c("json", json_again::<Option<SubmissionId>>)], false),
        "Ids" => (vec![c("json", json_again::<Vec<SubmissionId>>)], false),
        "Chunk" => (vec![c("cbor", cbor_again::<Chunk>)], true),
        "ChunkCompleted" => (vec![c("json", json_again::<ChunkCompleted>)], false),
        "ChunkFailed" => (vec![c("json", json_again::<ChunkFailed>)], false),
        "Submission" => (vec![c("cbor", cbor_again::<Submission>)], true),
        "Strategy" => (vec![c("cbor", cbor_again::<opsqueue::consumer::strategy::Strategy>)], true),
        "ChunkId" => (vec![c("cbor", cbor_again::<ChunkId>)], true),
        k => unreachable!("{k}"),
    }
}
fn decode_doc(b: &[u8], is_cbor: bool) -> Result<Value, String> {
    if is_cbor { ciborium::from_reader(b).map_err(|e| e.to_string()) } else { serde_json::from_slice(b).map_err(|e| e.to_string()) }
}
fn encode_doc(d: &Value, is_cbor: bool) -> Vec<u8> {
    if is_cbor { cbor(d) } else { serde_json::to_vec(d).unwrap() }
}

impl Prop for Wire {
    type Case = WireCase;
    fn name(&self) -> &'static str {
        "messages"
    }
    fn rule(&self) -> &'static str {
        "a documented message was decoded and encoded, or a damaged one was offered"
    }
    fn generate(&self, rng: &mut Rng, index: u64, _: Tier) -> WireCase {
        let kind = KINDS[(index % 16) as usize];
        match rng.below(10) {
            0..=5 => WireCase::Doc { kind: kind.into(), doc: document(kind, rng) },
            6..=8 => {
                let doc = document(kind, rng);
                let n = encode_doc(&doc, codecs(kind).1).len() as u64;
                let edits = (0..rng.below(4)).map(|_| (rng.below(n) as u32, if rng.chance(1, 2) { rng.u64() as u8 } else { *rng.pick(&[0, 0xff, 0x9f, 0xbf, 0x5f, 0x7f, 0xf6, 0x3b, 0x1b, b'"', b'{', b'-']) })).collect();
                let cut = rng.chance(1, 3).then(|| rng.below(n) as u32);
                WireCase::Broken { kind: kind.into(), doc, edits, cut }
            }
            _ => WireCase::Garbage { kind: kind.into(), bytes: rng.bytes(80) },
        }
    }
    fn shrink(&self, c: &WireCase) -> Vec<WireCase> {
        match c {
            WireCase::Garbage { kind, bytes } => shrink_vec(bytes).into_iter().map(|bytes| WireCase::Garbage { kind: kind.clone(), bytes }).collect(),
            WireCase::Broken { kind, doc, edits, cut } => shrink_vec(edits).into_iter().map(|edits| WireCase::Broken { kind: kind.clone(), doc: doc.clone(), edits, cut: *cut }).collect(),
            _ => vec![],
        }
    }
    fn run(&self, case: &WireCase, _: Mode) -> RunResult {
        let mut info = CaseInfo { nontrivial: true, ..Default::default() };
        match case {
            WireCase::Doc { kind, doc } => {
                info.tag(format!("doc {kind}"));
                let (cs, is_cbor) = codecs(kind);
                let bytes = encode_doc(doc, is_cbor);
                for c in cs {
                    info.evals += 1;
                    let again = match (c.again)(&bytes) {
                        Ok(b) => b,
                        Err(e) => return fail_p_sound(&["P18"], format!("a documented {kind} is refused ({})", c.name), format!("{doc}: {e}")),
                    };
                    let doc2 = decode_doc(&again, is_cbor).map_err(|e| RunError::Violation(Failure { sig: format!("an encoded {kind} cannot be read by an independent peer"), msg: format!("{doc}: {e}"), sound: true, props: vec!["P18"] }))?;
                    if doc2 != *doc {
                        return fail_p_sound(&["P18"], format!("a {kind} is not the same after decoding and encoding ({})", c.name), format!("{doc} became {doc2}"));
                    }
                    match (c.again)(&again) {
                        Ok(b) if b.len() == again.len() => {}
                        other => return fail_p_sound(&["P18"], format!("an encoded {kind} cannot be decoded again ({})", c.name), format!("{doc}: {other:?}")),
                    }
                }
                // fields documented as optional may be left out
                if kind == "InsertSubmission" {
                    for f in ["metadata", "strategic_metadata", "chunk_size"] {
                        let mut d = doc.clone();
                        d.as_object_mut().unwrap().remove(f);
                        let want = if f == "strategic_metadata" { json!({}) } else { Value::Null };
                        info.evals += 1;
                        match json_again::<InsertSubmission>(&serde_json::to_vec(&d).unwrap()).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
                            Some(v) if v[f] == want => {}
                            other => return fail_p_sound(&["P18"], format!("a submission without {f} is not understood"), format!("{d}: {other:?}")),
                        }
                    }
                }
                // required parts may not
                for missing in required(kind, doc) {
                    info.evals += 1;
                    let bytes = encode_doc(&missing.1, is_cbor);
                    for c in codecs(kind).0 {
                        if (c.again)(&bytes).is_ok() {
                            return fail_p_sound(&["P18"], format!("a {kind} without {} is accepted ({})", missing.0, c.name), format!("{}", missing.1));
                        }
                    }
                }
            }
            WireCase::Broken { kind, doc, edits, cut } => {
                let (cs, is_cbor) = codecs(kind);
                let mut bytes = encode_doc(doc, is_cbor);
                for (p, v) in edits {
                    if let Some(b) = bytes.get_mut(*p as usize) {
                        *b = *v;
                    }
                }
                if let Some(c) = cut {
                    bytes.truncate(*c as usize);
                }
                for c in cs {
                    info.evals += 1;
                    self.offer(kind, &c, &bytes, is_cbor, &mut info)?;
                    if edits.is_empty() && cut.is_some_and(|k| (k as usize) < encode_doc(doc, is_cbor).len()) && !is_scalar(kind) && (c.again)(&bytes).is_ok() {
                        return fail_p_sound(&["P18"], format!("a truncated {kind} is accepted ({})", c.name), format!("{doc} cut at {cut:?}"));
                    }
                }
            }
            WireCase::Garbage { kind, bytes } => {
                let (cs, is_cbor) = codecs(kind);
                for c in cs {
                    info.evals += 1;
                    self.offer(kind, &c, bytes, is_cbor, &mut info)?;
                }
            }
        }
        Ok(info)
    }
}
fn is_scalar(kind: &str) -> bool {
    matches!(kind, "SubmissionNotFound" | "TooManyMatchingSubmissions" | "OptionalId")
}
fn required(kind: &str, doc: &Value) -> Vec<(String, Value)> {
    let fields: &[&str] = match kind {
        "ClientToServer" => &["nonce", "contents"],
        "InsertSubmission" => &["chunk_contents"],
        "Chunk" => &["submission_id", "chunk_index", "retries"],
        "ChunkId" => &["submission_id", "chunk_index"],
        "Submission" => &["id", "chunks_total", "chunks_done", "chunk_size", "otel_trace_carrier"],
        _ => &[],
    };
    fields
        .iter()
        .map(|f| {
            let mut d = doc.clone();
            d.as_object_mut().unwrap().remove(*f);
            (f.to_string(), d)
        })
        .collect()
}
impl Wire {
    /// Anything may be refused; what is accepted must mean the same after another round.
    fn offer(&self, kind: &str, c: &Codec, bytes: &[u8], is_cbor: bool, info: &mut CaseInfo) -> Result<(), RunError> {
        let r = std::panic::catch_unwind(|| (c.again)(bytes));
        match r {
            Err(_) => fail_p_sound(&["P18", "P19"], format!("decoding a damaged {kind} panics ({})", c.name), format!("{bytes:?}")),
            Ok(Err(_)) => {
                info.tag("refused");
                Ok(())
            }
            Ok(Ok(b)) => {
                info.tag("accepted");
                let d1 = decode_doc(&b, is_cbor);
                let d2 = (c.again)(&b).and_then(|b| decode_doc(&b, is_cbor));
                if d1.is_err() || d1 != d2 {
                    return fail_p_sound(&["P18"], format!("a {kind} is not the same after another round ({})", c.name), format!("{bytes:?}: {d1:?} and {d2:?}"));
                }
                Ok(())
            }
        }
    }
}
