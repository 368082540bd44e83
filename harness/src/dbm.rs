//! Model-based histories against opsqueue's storage layer (public functions, real SQLite file).
use crate::engine::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use opsqueue::common::chunk::{self, ChunkId, ChunkIndex, ChunkSize};
use opsqueue::common::errors::{E, SubmissionNotCancellable};
use opsqueue::common::submission::{self, SubmissionId};
use opsqueue::common::{MaxSubmissions, StrategicMetadataMap};
use opsqueue::db::{Connection, WriterPool};
use serde::{Deserialize, Serialize};
use sqlx::Row;
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZero;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Submit(SubSpec),
    /// Complete chunk `idx` (mod len+1; the last value is a chunk that does not exist) of submission `sub`
    Complete { sub: u32, idx: u32, out: Option<Vec<u8>> },
    Fail { sub: u32, idx: u32, text: String },
    CompleteRest { sub: u32 },
    FailOut { sub: u32, idx: u32, text: String },
    Cancel { sub: u32 },
    /// Complete / fail / cancel something that never existed
    Ghost { kind: u32 },
    Mark,
    Cleanup { mark: u32 },
    /// `near`: look up a prefix that is nearly that of the submission
    Prefix { sub: u32, extra: Option<String>, #[serde(default)] near: Option<u32> },
    Meta { sub: u32, keep: u32, extra: BTreeMap<String, i64>, limit: u64 },
    Reopen,
}
impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Submit(_) => "submit",
            Op::Complete { .. } => "complete",
            Op::Fail { .. } => "fail",
            Op::CompleteRest { .. } => "complete-rest",
            Op::FailOut { .. } => "fail-out",
            Op::Cancel { .. } => "cancel",
            Op::Ghost { .. } => "ghost",
            Op::Mark => "mark",
            Op::Cleanup { .. } => "cleanup",
            Op::Prefix { .. } => "prefix-lookup",
            Op::Meta { .. } => "metadata-lookup",
            Op::Reopen => "reopen",
        }
    }
    /// Properties a wrong effect of this operation speaks about, besides those of the field that differs
    pub fn props(&self) -> Vec<&'static str> {
        match self {
            Op::Submit(_) => vec!["P01"],
            Op::Complete { .. } | Op::CompleteRest { .. } => vec!["P02"],
            Op::Fail { .. } | Op::FailOut { .. } => vec!["P04"],
            Op::Cancel { .. } => vec!["P06"],
            Op::Ghost { .. } => vec!["P02"],
            Op::Mark | Op::Cleanup { .. } => vec!["P16"],
            Op::Prefix { .. } => vec!["P14"],
            Op::Meta { .. } => vec!["P15"],
            Op::Reopen => vec!["P10"],
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub max_retries: u32,
    pub ops: Vec<Op>,
}

/// Weights of the operations of a profile
#[derive(Clone)]
pub struct Profile {
    pub name: &'static str,
    pub rule: &'static str,
    pub w: [u64; 12],
    pub len: (u64, u64),
    pub spec: fn() -> SpecGen,
    pub nontrivial: fn(&BTreeMap<String, u64>) -> bool,
}

pub struct DbHistory(pub Profile);

pub fn gen_case(p: &Profile, rng: &mut Rng, tier: Tier) -> Case {
    if p.name == "db-cleanup" && rng.chance(1, 25) {
        return gen_many_ended(p, rng);
    }
    let spec = (p.spec)();
    let n = rng.range(p.len.0, p.len.1) * if tier == Tier::Thorough && rng.chance(1, 4) { 3 } else { 1 };
    let mut ops = vec![Op::Submit(spec.spec(rng))];
    for _ in 0..n {
        let sub = rng.below(64) as u32;
        // indexes biased to small submissions; 63 is often "one past the end"
        let idx = rng.below(24) as u32;
        ops.push(match rng.weighted(&p.w) {
            0 => Op::Submit(spec.spec(rng)),
            1 => Op::Complete { sub, idx, out: if rng.chance(1, 2) { Some(rng.bytes(10)) } else { None } },
            2 => Op::Fail { sub, idx, text: rng.string_edgy(6) },
            3 => Op::CompleteRest { sub },
            4 => Op::FailOut { sub, idx, text: rng.string_edgy(6) },
            5 => Op::Cancel { sub },
            6 => Op::Ghost { kind: rng.below(3) as u32 },
            7 => Op::Mark,
            8 => Op::Cleanup { mark: rng.below(8) as u32 },
            9 => Op::Prefix { sub, extra: if rng.chance(1, 4) { Some(spec.prefix(rng)) } else { None }, near: if rng.chance(1, 3) { Some(rng.below(256) as u32) } else { None } },
            10 => Op::Meta {
                sub,
                keep: rng.below(16) as u32,
                extra: if rng.chance(1, 3) { spec.strategic(rng) } else { BTreeMap::new() },
                limit: *rng.pick(&[1u64, 2, 3, 5, 100_000]),
            },
            _ => Op::Reopen,
        });
    }
    Case { max_retries: *rng.pick(&[0u32, 1, 2, 3, 3, 10]), ops }
}

/// Tens or hundreds of submissions that end in all ways, most of which are cleaned up at once
fn gen_many_ended(p: &Profile, rng: &mut Rng) -> Case {
    let spec = SpecGen { max_chunks: 3, stored: 40, ..(p.spec)() };
    let n = rng.range(20, 260) as u32;
    let mut ops = vec![];
    let (w, marks) = ([rng.below(5) + 1, rng.below(5) + 1, rng.below(5) + 1, rng.below(3)], rng.range(1, 3));
    for i in 0..n {
        ops.push(Op::Submit(spec.spec(rng)));
        let (sub, idx) = (if rng.chance(4, 5) { i } else { rng.below(u64::from(n)) as u32 }, rng.below(3) as u32);
        match rng.weighted(&w) {
            0 => ops.push(Op::CompleteRest { sub }),
            1 => ops.push(Op::FailOut { sub, idx, text: rng.string_edgy(6) }),
            2 => ops.push(Op::Cancel { sub }),
            _ => {}
        }
        if rng.chance(marks, u64::from(n)) || i == n * 4 / 5 {
            ops.push(Op::Mark);
        }
    }
    ops.push(Op::Cleanup { mark: rng.below(8) as u32 });
    ops.push(Op::Mark);
    ops.push(Op::Cleanup { mark: rng.below(8) as u32 });
    Case { max_retries: 2, ops }
}

pub struct Db {
    pub file: String,
    pub pool: sqlx::SqlitePool,
    pub w: WriterPool,
}
pub async fn open_single(file: &str) -> Result<Db, RunError> {
    use sqlx::sqlite::*;
    let o = SqliteConnectOptions::new()
        .filename(file)
        .journal_mode(SqliteJournalMode::Wal)
        .synchronous(SqliteSynchronous::Off)
        .foreign_keys(true)
        .pragma("wal_autocheckpoint", "0");
    let pool = SqlitePoolOptions::new().max_connections(1).connect_with(o).await.map_err(infra_err)?;
    Ok(Db { file: file.into(), w: WriterPool::new(pool.clone()), pool })
}

pub fn sid(id: u64) -> SubmissionId {
    SubmissionId::try_from(id).expect("id")
}
pub fn cid(id: u64, i: u64) -> ChunkId {
    ChunkId { submission_id: sid(id), chunk_index: ChunkIndex::try_from(i).expect("index") }
}

fn tagged<T>(op: &Op, e: (Vec<&'static str>, String, String)) -> Result<T, RunError> {
    let mut props = e.0;
    // a wrong state after an operation also speaks about the property that operation belongs to;
    // a wrong attribute does not
    if props.is_empty() || props.contains(&"P01") || matches!(op, Op::Cleanup { .. } | Op::Reopen) {
        props.extend(op.props());
    }
    fail_p(&props, e.1, format!("after {}: {}", op.kind(), e.2))
}

/// Everything stored must be exactly what the model says.
pub async fn audit(conn: &mut sqlx::SqliteConnection, model: &mut [MSub]) -> Result<u64, (Vec<&'static str>, String, String)> {
    let db = |e: sqlx::Error| (vec![], "database error while reading".to_string(), e.to_string());
    let mut evals = 0;
    let mut pend: BTreeMap<(u64, u64), (Option<Vec<u8>>, i64)> = BTreeMap::new();
    for r in sqlx::query("SELECT submission_id, chunk_index, input_content, retries FROM chunks").fetch_all(&mut *conn).await.map_err(db)? {
        pend.insert((r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64), (r.get(2), r.get(3)));
    }
    let mut done: BTreeMap<(u64, u64), Option<Vec<u8>>> = BTreeMap::new();
    for r in sqlx::query("SELECT submission_id, chunk_index, output_content FROM chunks_completed").fetch_all(&mut *conn).await.map_err(db)? {
        done.insert((r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64), r.get(2));
    }
    let mut failed: BTreeMap<(u64, u64), (Option<Vec<u8>>, String, bool)> = BTreeMap::new();
    for r in sqlx::query("SELECT submission_id, chunk_index, input_content, CAST(failure AS TEXT), skipped FROM chunks_failed").fetch_all(&mut *conn).await.map_err(db)? {
        failed.insert((r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64), (r.get(2), r.get(3), r.get(4)));
    }
    for m in model.iter() {
        let inputs = m.spec.chunk_contents();
        for (i, c) in m.chunks.iter().enumerate() {
            let k = (m.id, i as u64);
            let (p, d, f) = (pend.remove(&k), done.remove(&k), failed.remove(&k));
            evals += 1;
            let places = p.is_some() as u32 + d.is_some() as u32 + f.is_some() as u32;
            if m.removed {
                if places != 0 && p.is_some() {
                    return Err((vec!["P16", "P01"], "removed submission still has pending chunks".into(), format!("{k:?}")));
                }
                if places != 0 {
                    return Err((vec!["P16"], "removed submission still has stored chunks".into(), format!("{k:?}")));
                }
                continue;
            }
            if places > 1 {
                return Err((vec!["P01"], "a chunk is in two places at once".into(), format!("{k:?} pending {p:?} done {d:?} failed {f:?}")));
            }
            let input = &inputs[i];
            match c {
                MChunk::Pending { retries } => match &p {
                    None => return Err((vec!["P01"], "a pending chunk is gone".into(), format!("{k:?}: done {d:?} failed {f:?}"))),
                    Some((inp, r)) => {
                        if inp != input {
                            return Err((vec!["P03"], "stored input differs from the submitted one".into(), format!("{k:?}: {inp:?} vs {input:?}")));
                        }
                        if *r as u64 != *retries {
                            return Err((vec!["P04"], "wrong retry count".into(), format!("{k:?}: {r}, required {retries}")));
                        }
                    }
                },
                MChunk::Done { output, .. } => match &d {
                    // completed chunks past the retention age may be cleaned up
                    None if p.is_none() && f.is_none() && m.ended_cleanable(i) => {}
                    None => return Err((vec!["P01", "P02"], "a completed chunk is not recorded as completed".into(), format!("{k:?}: pending {p:?} failed {f:?}"))),
                    Some(o) if o == output => {}
                    Some(o) => return Err((vec!["P03"], "stored output differs from the reported one".into(), format!("{k:?}: {o:?} vs {output:?}"))),
                },
                MChunk::Failed { text } => match &f {
                    Some((inp, t, false)) if t == text && inp == input => {}
                    other => return Err((vec!["P04", "P01"], "the failed chunk is not recorded with its failure".into(), format!("{k:?}: {other:?}, required {text:?} {input:?}; pending {p:?} done {d:?}"))),
                },
                MChunk::Skipped => match &f {
                    Some((inp, _, true)) if inp == input => {}
                    other => return Err((vec!["P01", "P04", "P06"], "a skipped chunk is not recorded as skipped".into(), format!("{k:?}: {other:?}; pending {p:?} done {d:?}"))),
                },
            }
        }
    }
    if let Some(k) = pend.keys().chain(done.keys()).chain(failed.keys()).next() {
        return Err((vec!["P01"], "a chunk exists that no submission has".into(), format!("{k:?}")));
    }
    Ok(evals)
}

impl MSub {
    /// Completed-chunk records older than a cleanup's cutoff may be removed while the submission lives on.
    fn ended_cleanable(&self, _i: usize) -> bool {
        CLEANED.with(|c| match &self.chunks[_i] {
            MChunk::Done { at, .. } => *at < c.get(),
            _ => false,
        })
    }
}
thread_local! {
    /// Logical time up to which records were cleaned (set by the driver of this thread)
    pub static CLEANED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub struct Driver {
    pub db: Db,
    pub model: Vec<MSub>,
    pub max_retries: u32,
    pub clock: u64,
    pub marks: Vec<(u64, chrono::DateTime<chrono::Utc>)>,
    pub tags: BTreeMap<String, u64>,
    pub evals: u64,
}

impl Driver {
    pub fn new(db: Db, max_retries: u32) -> Driver {
        CLEANED.with(|c| c.set(0));
        Driver { db, model: vec![], max_retries, clock: 0, marks: vec![], tags: BTreeMap::new(), evals: 0 }
    }
    fn tag(&mut self, s: &str) {
        *self.tags.entry(s.into()).or_default() += 1;
    }

    async fn one_complete(&mut self, op: &Op, s: usize, i: u64, out: Option<Vec<u8>>) -> Result<bool, RunError> {
        let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
        let m = &mut self.model[s];
        let gone = m.removed;
        let r = chunk::db::complete_chunk(cid(m.id, i), out.clone(), &mut conn).await;
        let applied = !gone && m.complete(i, out, self.clock);
        if r.is_ok() != applied {
            return fail_p(&["P02"], if applied { "completing a pending chunk failed" } else { "completing a chunk that is not pending was reported as a success" }, format!("{}: {:?} for {}:{}", op.kind(), r.err().map(|e| e.to_string()), m.id, i));
        }
        self.tag(if applied { "complete-applied" } else { "complete-stale" });
        Ok(applied)
    }
    async fn one_fail(&mut self, op: &Op, s: usize, i: u64, text: &str) -> Result<bool, RunError> {
        let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
        let m = &mut self.model[s];
        let gone = m.removed;
        let r = chunk::db::retry_or_fail_chunk(cid(m.id, i), text.into(), &mut conn, self.max_retries).await;
        let applied = !gone && m.fail(i, text, self.max_retries as u64, self.clock);
        let perm = applied && m.state == MState::Failed(i);
        match (&r, applied) {
            (Ok(p), true) if *p == perm => {}
            (Err(_), false) => {}
            _ => return fail_p(&["P04"], "failing a chunk reported the wrong outcome", format!("{}: {r:?}; applied {applied} permanent {perm} for {}:{i}", op.kind(), m.id)),
        }
        self.tag(if perm { "failed-permanently" } else if applied { "retried" } else { "fail-stale" });
        Ok(applied)
    }

    pub async fn apply(&mut self, op: &Op) -> Result<(), RunError> {
        self.clock += 1;
        let n = self.model.len();
        let pick = |s: u32| (s as usize) % n.max(1);
        match op {
            Op::Submit(spec) => {
                let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
                let strategic: StrategicMetadataMap = spec.strategic.clone().into_iter().collect();
                let r = submission::db::insert_submission_from_chunks(
                    spec.prefix(),
                    spec.chunk_contents(),
                    spec.metadata.clone(),
                    strategic,
                    spec.chunk_size.map(ChunkSize).unwrap_or_default(),
                    &mut conn,
                )
                .await;
                let id = match r {
                    Ok(id) => u64::from(id),
                    Err(e) => return fail_p(&["P01"], "a valid submission was refused", e.to_string()),
                };
                if let Some(last) = self.model.last() {
                    if id <= last.id {
                        return fail_p(&["P17"], "submission id not larger than an earlier one", format!("{id} after {}", last.id));
                    }
                }
                self.model.push(MSub::new(id, spec.clone(), self.clock));
                if spec.is_empty() {
                    self.tag("zero-chunk-submission");
                }
                if spec.len() > 900 {
                    self.tag("bulk-submission");
                }
            }
            _ if n == 0 => {}
            Op::Complete { sub, idx, out } => {
                let s = pick(*sub);
                let i = *idx as u64 % (self.model[s].chunks.len() as u64 + 1);
                self.one_complete(op, s, i, out.clone()).await?;
            }
            Op::Fail { sub, idx, text } => {
                let s = pick(*sub);
                let i = *idx as u64 % (self.model[s].chunks.len() as u64 + 1);
                self.one_fail(op, s, i, text).await?;
            }
            Op::CompleteRest { sub } => {
                let s = pick(*sub);
                if self.model[s].chunks.len() < 50 {
                    for i in 0..self.model[s].chunks.len() as u64 {
                        if self.model[s].is_pending(i) {
                            self.one_complete(op, s, i, None).await?;
                        }
                    }
                }
            }
            Op::FailOut { sub, idx, text } => {
                let s = pick(*sub);
                let len = self.model[s].chunks.len() as u64;
                if len > 0 {
                    let i = *idx as u64 % len;
                    for _ in 0..self.max_retries.max(1) {
                        if self.model[s].is_pending(i) {
                            self.one_fail(op, s, i, text).await?;
                        }
                    }
                }
            }
            Op::Cancel { sub } => {
                let s = pick(*sub);
                let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
                let m = &mut self.model[s];
                let before = m.state.clone();
                let r = submission::db::cancel_submission(sid(m.id), &mut conn).await;
                let got = match &r {
                    Ok(()) => "ok",
                    Err(E::L(_)) => "database error",
                    Err(E::R(E::L(_))) => "not found",
                    Err(E::R(E::R(SubmissionNotCancellable::Completed(_)))) => "Completed",
                    Err(E::R(E::R(SubmissionNotCancellable::Failed(..)))) => "Failed",
                    Err(E::R(E::R(SubmissionNotCancellable::Cancelled(_)))) => "Cancelled",
                };
                let want = if m.removed { "not found" } else if before == MState::InProgress { "ok" } else { before.name() };
                if got != want {
                    return fail_p(&["P06"], "cancelling reported the wrong outcome", format!("submission {} was {before:?}: got {got}, required {want}", m.id));
                }
                if !m.removed {
                    m.cancel(self.clock);
                }
                self.tag(&format!("cancel-{want}"));
            }
            Op::Ghost { kind } => {
                let ghost = self.model.iter().map(|m| m.id).max().unwrap_or(0) + 1_000_003;
                let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
                let bad = match kind % 3 {
                    0 => chunk::db::complete_chunk(cid(ghost, 0), None, &mut conn).await.is_ok(),
                    1 => chunk::db::retry_or_fail_chunk(cid(ghost, 0), "x".into(), &mut conn, self.max_retries).await.is_ok(),
                    _ => submission::db::cancel_submission(sid(ghost), &mut conn).await.is_ok(),
                };
                if bad {
                    return fail_p(&["P02", "P04", "P06"], "an operation on a submission that never existed succeeded", format!("kind {kind}"));
                }
                match submission::db::submission_status(sid(ghost), &mut conn).await {
                    Ok(None) => {}
                    other => return fail_p(&["P01", "P05"], "a submission that never existed has a status", format!("{other:?}")),
                }
            }
            Op::Mark => {
                tokio::time::sleep(Duration::from_millis(5)).await;
                self.marks.push((self.clock, chrono::Utc::now()));
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
            Op::Cleanup { mark } => {
                let (t, when) = match self.marks.len() {
                    0 => (0, chrono::Utc::now() - chrono::Duration::seconds(3600)),
                    k => {
                        // 0: long ago, otherwise a mark (biased to the most recent one)
                        let j = *mark as usize % (k + 2);
                        if j == 0 { (0, chrono::Utc::now() - chrono::Duration::seconds(3600)) } else { self.marks[(j - 1).min(k - 1)] }
                    }
                };
                let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
                if let Err(e) = submission::db::cleanup_old(&mut conn, when).await {
                    return fail_p(&["P16"], "cleanup failed", e.to_string());
                }
                CLEANED.with(|c| c.set(c.get().max(t)));
                let mut k = 0;
                for m in &mut self.model {
                    if m.state != MState::InProgress && m.ended < t && !m.removed {
                        m.removed = true;
                        k += 1;
                    }
                }
                if k > 0 {
                    self.tag("cleanup-removed-some");
                }
                if self.model.iter().any(|m| !m.removed && m.state != MState::InProgress) {
                    self.tag("cleanup-kept-young");
                }
                if self.model.iter().any(|m| m.state == MState::InProgress && m.done() > 0) {
                    self.tag("cleanup-with-partial-in-progress");
                }
            }
            Op::Prefix { sub, extra, near } => {
                let p = extra.clone().or_else(|| self.model[pick(*sub)].spec.prefix()).unwrap_or_else(|| "nothing".into());
                let p = near.map(|n| near_prefix(&p, n)).unwrap_or(p);
                let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
                let got = submission::db::lookup_id_by_prefix(&p, &mut conn).await.map_err(|e| infra_err(e.to_string()))?.map(u64::from);
                let live: Vec<_> = self.model.iter().filter(|m| !m.removed && m.spec.prefix().as_deref() == Some(p.as_str())).collect();
                let ok = match got {
                    None => live.is_empty(),
                    Some(g) => live.iter().any(|m| m.id == g),
                };
                let desc = live.iter().map(|m| m.state.name()).collect::<BTreeSet<_>>();
                if !ok {
                    return fail_p(&["P14"], format!("prefix lookup is wrong ({})", if got.is_none() { format!("nothing found, exists as {desc:?}") } else { "wrong id".into() }), format!("prefix {p:?}: got {got:?}, live {:?}", live.iter().map(|m| (m.id, m.state.name())).collect::<Vec<_>>()));
                }
                for d in desc {
                    self.tag(&format!("prefix-hit-{d}"));
                }
            }
            Op::Meta { sub, keep, extra, limit } => {
                let mut q: BTreeMap<String, i64> = self.model[pick(*sub)].spec.strategic.iter().enumerate().filter(|(i, _)| keep >> i & 1 == 1).map(|(_, (k, v))| (k.clone(), *v)).collect();
                for (k, v) in extra {
                    q.entry(k.clone()).or_insert(*v);
                }
                self.check_meta(&q, *limit).await?;
            }
            Op::Reopen => {
                let file = self.db.file.clone();
                self.db.pool.close().await;
                self.db = open_single(&file).await?;
            }
        }
        Ok(())
    }

    pub async fn check_meta(&mut self, q: &BTreeMap<String, i64>, limit: u64) -> Result<(), RunError> {
        let mut want: Vec<u64> = self
            .model
            .iter()
            .filter(|m| !m.removed && m.state == MState::InProgress && q.iter().all(|(k, v)| m.spec.strategic.get(k) == Some(v)))
            .map(|m| m.id)
            .collect();
        want.sort();
        let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
        let r = submission::db::lookup_ids_by_strategic_metadata(q.clone().into_iter().collect(), MaxSubmissions::new(NonZero::new(limit).unwrap()).unwrap(), &mut conn).await;
        let over = want.len() as u64 > limit;
        match r {
            Ok(ids) => {
                let ids: Vec<u64> = ids.into_iter().map(u64::from).collect();
                if over || ids != want {
                    return fail_p(&["P15"], if over { "lookup above the limit was answered" } else { "metadata lookup returned the wrong submissions" }, format!("query {q:?} limit {limit}: got {ids:?}, required {want:?}"));
                }
            }
            Err(E::R(_)) if over => self.tag("metadata-lookup-over-limit"),
            Err(e) => return fail_p(&["P15"], "metadata lookup refused", format!("query {q:?} limit {limit}: {e}; required {want:?}")),
        }
        if !want.is_empty() && !q.is_empty() {
            self.tag("metadata-lookup-hit");
        }
        if want.len() as u64 == limit {
            self.tag("metadata-lookup-at-limit");
        }
        Ok(())
    }

    /// Compare everything observable with the model.
    pub async fn check_all(&mut self, op: &Op) -> Result<(), RunError> {
        let mut conn = self.db.w.writer_conn().await.map_err(infra_err)?;
        match audit(conn.get_inner(), &mut self.model).await {
            Ok(n) => self.evals += n,
            Err(e) => return tagged(op, e),
        }
        for m in &mut self.model {
            let asked = chrono::Utc::now();
            let st = match submission::db::submission_status(sid(m.id), &mut conn).await {
                Ok(st) => st,
                Err(e) => return fail_p(&["P13", "P05", "P01"], "status could not be read", format!("{}: {e}", m.id)),
            };
            let v = serde_json::to_value(&st).map_err(infra_err)?;
            match m.check_status_at(&v, asked) {
                Ok(n) => self.evals += n,
                Err(e) => return tagged(op, e),
            }
        }
        // counters
        let c = |f: &dyn Fn(&MSub) -> bool| self.model.iter().filter(|m| !m.removed && f(m)).count() as u64;
        let want = [
            ("submissions", c(&|m| m.state == MState::InProgress)),
            ("completed submissions", c(&|m| m.state == MState::Completed)),
            ("failed submissions", c(&|m| matches!(m.state, MState::Failed(_)))),
            ("chunks", self.model.iter().filter(|m| m.state == MState::InProgress).map(|m| m.chunks.len() as u64 - m.done()).sum()),
        ];
        let got: [u64; 4] = [
            submission::db::count_submissions(&mut conn).await.map_err(infra_err)?.into(),
            submission::db::count_submissions_completed(&mut conn).await.map_err(infra_err)?.into(),
            submission::db::count_submissions_failed(&mut conn).await.map_err(infra_err)?.into(),
            chunk::db::count_chunks(&mut conn).await.map_err(infra_err)?.into(),
        ];
        for ((n, w), g) in want.iter().zip(got) {
            self.evals += 1;
            if *w != g {
                return tagged(op, (vec!["P01"], format!("the number of {n} is wrong"), format!("{g}, required {w}")));
            }
        }
        // strategic metadata rows live exactly as long as their submission
        let rows = sqlx::query("SELECT submission_id, metadata_key, metadata_value FROM submissions_metadata").fetch_all(conn.get_inner()).await.map_err(infra_err)?;
        let got: BTreeSet<(u64, String, i64)> = rows.iter().map(|r| (r.get::<i64, _>(0) as u64, r.get(1), r.get(2))).collect();
        let want: BTreeSet<(u64, String, i64)> = self.model.iter().filter(|m| !m.removed).flat_map(|m| m.spec.strategic.iter().map(|(k, v)| (m.id, k.clone(), *v))).collect();
        if let Some(x) = got.symmetric_difference(&want).next() {
            return tagged(op, (vec!["P13"], if want.contains(x) { "strategic metadata was lost".into() } else { "strategic metadata outlives its submission".into() }, format!("{x:?}")));
        }
        // what is left to do, in operations
        let (mut sum, mut abs) = (0f64, 0f64);
        for m in self.model.iter().filter(|m| m.state == MState::InProgress) {
            let x = (m.chunks.len() as u64 - m.done()) as f64 * m.spec.chunk_size.unwrap_or(1) as f64;
            sum += x;
            abs += x.abs();
        }
        let est = chunk::db::count_ops_in_backlog_estimate(&mut conn).await.map_err(infra_err)?;
        if (est - sum).abs() > abs * 1e-9 + 1e-6 {
            return tagged(op, (vec!["P01"], "the backlog estimate is wrong".into(), format!("{est}, required {sum}")));
        }
        Ok(())
    }
}

impl Prop for DbHistory {
    type Case = Case;
    fn name(&self) -> &'static str {
        self.0.name
    }
    fn rule(&self) -> &'static str {
        self.0.rule
    }
    fn generate(&self, rng: &mut Rng, _i: u64, tier: Tier) -> Case {
        gen_case(&self.0, rng, tier)
    }
    fn run(&self, case: &Case, _mode: Mode) -> RunResult {
        let scratch = Scratch::new();
        let file = fresh_db(scratch.path());
        rt().block_on(async {
            let mut d = Driver::new(open_single(&file).await?, case.max_retries);
            for op in &case.ops {
                d.apply(op).await?;
                d.tag(op.kind());
                if !matches!(op, Op::Mark) {
                    d.check_all(op).await?;
                }
            }
            let mut info = CaseInfo { evals: d.evals, tags: d.tags.clone(), ..Default::default() };
            for m in &d.model {
                info.tag(format!("end:{}", m.state.name()));
            }
            info.nontrivial = (self.0.nontrivial)(&info.tags);
            d.db.pool.close().await;
            Ok(info)
        })
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out: Vec<Case> = shrink_vec(&c.ops).into_iter().map(|ops| Case { max_retries: c.max_retries, ops }).collect();
        for (i, op) in c.ops.iter().enumerate() {
            if let Op::Submit(s) = op {
                let mut simpler = vec![];
                if let Contents::Direct(v) = &s.contents {
                    if v.len() > 1 {
                        simpler.push(SubSpec { contents: Contents::Direct(v[..v.len() - 1].to_vec()), ..s.clone() });
                    }
                }
                if !s.strategic.is_empty() {
                    simpler.push(SubSpec { strategic: BTreeMap::new(), ..s.clone() });
                }
                if s.metadata.is_some() {
                    simpler.push(SubSpec { metadata: None, ..s.clone() });
                }
                if s.chunk_size.is_some() {
                    simpler.push(SubSpec { chunk_size: None, ..s.clone() });
                }
                for s2 in simpler {
                    let mut ops = c.ops.clone();
                    ops[i] = Op::Submit(s2);
                    out.push(Case { max_retries: c.max_retries, ops });
                }
            }
        }
        out
    }
}

pub fn any(t: &BTreeMap<String, u64>, keys: &[&str]) -> bool {
    keys.iter().any(|k| t.contains_key(*k))
}
pub fn all(t: &BTreeMap<String, u64>, keys: &[&str]) -> bool {
    keys.iter().all(|k| t.contains_key(*k))
}
