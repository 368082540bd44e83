//! P28: the write-ahead log of the database is emptied all the time and does not keep growing.
use crate::check;
use crate::engine::*;
use crate::hist::Strat;
use crate::real::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sqlx::Connection as _;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Phase {
    /// that many submissions of so many chunks of so many bytes
    Insert { times: u64, chunks: u64, bytes: u64 },
    /// take and complete (or fail) that many chunks
    Work { chunks: u64, bytes: u64, fail: bool },
    /// one submission whose chunks are stored elsewhere
    Huge { chunks: u64, cancel: bool },
    /// cancel the n-th submission
    Cancel { nth: u64 },
    /// somebody else reads (for so many ms) while submissions are inserted
    Reader { ms: u64, times: u64, bytes: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiskCase {
    pub phases: Vec<Phase>,
    /// that many peers ask for states all the time
    pub observers: u64,
}
pub struct Disk;

const MIB: u64 = 1 << 20;

impl Prop for Disk {
    type Case = DiskCase;
    fn name(&self) -> &'static str {
        "write-ahead-log"
    }
    fn rule(&self) -> &'static str {
        "more than 5 MiB were written at once, or 16 MiB bit by bit"
    }
    fn threads(&self) -> usize {
        4
    }
    fn generate(&self, rng: &mut Rng, i: u64, _: Tier) -> DiskCase {
        let mut phases = vec![];
        for _ in 0..rng.range(1, 4) {
            phases.push(match rng.below(5) {
                0 | 1 => Phase::Insert { times: rng.range(1, 6), chunks: rng.range(1, 40), bytes: *rng.pick(&[0, 100, 5000, 20_000]) },
                2 => Phase::Work { chunks: rng.range(1, 250), bytes: *rng.pick(&[0, 10, 1000, 50_000]), fail: rng.chance(1, 4) },
                3 => Phase::Cancel { nth: rng.below(5) },
                _ => Phase::Reader { ms: rng.range(50, 900), times: rng.range(1, 3), bytes: *rng.pick(&[1000, 500_000, 900_000]) },
            });
        }
        let at = rng.usize(phases.len() + 1);
        phases.insert(
            at,
            match i % 4 {
                0 => Phase::Huge { chunks: rng.range(140_000, 180_000), cancel: rng.chance(1, 2) },
                1 => Phase::Work { chunks: 2, bytes: rng.range(6, 10) * MIB, fail: rng.chance(1, 2) },
                _ => {
                    let chunks = rng.range(1, 4);
                    Phase::Insert { times: rng.range(50, 80), chunks, bytes: 360_000 / chunks }
                }
            },
        );
        if let Phase::Work { .. } = phases[at] {
            phases.insert(at, Phase::Insert { times: 1, chunks: 20, bytes: 10 });
        }
        DiskCase { phases, observers: rng.below(4) }
    }
    fn shrink(&self, c: &DiskCase) -> Vec<DiskCase> {
        let mut out: Vec<DiskCase> = shrink_vec(&c.phases).into_iter().map(|phases| DiskCase { phases, ..c.clone() }).collect();
        if c.observers > 0 {
            out.push(DiskCase { observers: 0, ..c.clone() });
        }
        out
    }
    fn run(&self, case: &DiskCase, mode: Mode) -> RunResult {
        let rt = rt_multi(2);
        let r = rt.block_on(run_disk(case, mode));
        rt.shutdown_background();
        r
    }
}

fn size(file: &str) -> u64 {
    std::fs::metadata(format!("{file}-wal")).map_or(0, |m| m.len())
}
fn submission(chunks: u64, bytes: u64, k: i64) -> Value {
    let c: Vec<u8> = (0..bytes).map(|i| (i % 10) as u8).collect();
    json!({"chunk_contents": {"Direct": {"contents": vec![c; chunks as usize]}}, "metadata": null, "strategic_metadata": {"k": k}, "chunk_size": 1})
}

async fn counts(file: &str) -> Result<Vec<i64>, RunError> {
    let mut c = open_reader(file).await?;
    let mut out = vec![];
    for t in ["submissions", "submissions_completed", "submissions_failed", "submissions_cancelled", "chunks", "chunks_completed", "chunks_failed"] {
        out.push(sqlx::query_scalar(sqlx::AssertSqlSafe(format!("SELECT COUNT(*) FROM {t}"))).fetch_one(&mut c).await.map_err(infra_err)?);
    }
    let _ = c.close().await;
    Ok(out)
}

async fn run_disk(case: &DiskCase, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = dir.file("q.db");
    let copy = dir.file("copy.db");
    let mut real = Real::start(&file, &["--max-chunk-retries", "3"], &[]).await?;
    let http = Http::patient(real.port);
    let wait = Duration::from_secs(if mode.slow { 25 } else { 9 });
    let mut ids = vec![http.submit(&submission(1, 1, 0)).await?];
    let stop = Arc::new(AtomicBool::new(false));
    // how long the log gets
    let top = Arc::new(AtomicU64::new(0));
    let mut others = vec![];
    {
        let (stop, top, file) = (stop.clone(), top.clone(), file.clone());
        others.push(tokio::spawn(async move {
            while !stop.load(Ordering::SeqCst) {
                top.fetch_max(size(&file), Ordering::SeqCst);
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
        }));
    }
    for _ in 0..case.observers {
        let (stop, http, id) = (stop.clone(), http.clone(), ids[0]);
        others.push(tokio::spawn(async move {
            while !stop.load(Ordering::SeqCst) {
                let _ = http.status(id).await;
                let _ = http.meta(&json!({"k": 1})).await;
            }
        }));
    }
    let mut big = false;
    // so far: results may be recorded later than they are sent
    let (mut sum_all, mut most_all) = (0, 0);
    for ph in &case.phases {
        heartbeat();
        top.store(0, Ordering::SeqCst);
        let (mut sum, mut most, mut reader) = (0, 0, false);
        match ph {
            Phase::Insert { times, chunks, bytes } => {
                let s = submission(*chunks, *bytes, 1);
                for _ in 0..*times {
                    ids.push(http.submit(&s).await?);
                    heartbeat();
                }
                (sum, most) = (times * chunks * (bytes + 100), chunks * (bytes + 100));
                info.tag("insert");
            }
            Phase::Work { chunks, bytes, fail } => {
                let mut c = Raw::connect(real.port, Arc::default()).await?;
                c.reserve(*chunks, &Strat::Oldest.json()).await;
                // (there may be nothing left)
                if let Some(got) = c.recv(Duration::from_millis(700)).await
                    && let Parsed::Reserved { chunks, .. } = parse(&got.msg)
                {
                    let out = Some(vec![7u8; *bytes as usize]);
                    most = *bytes;
                    for g in chunks {
                        sum += *bytes;
                        if *fail { c.fail((g.sub, g.idx), &"x".repeat(*bytes as usize)).await } else { c.complete((g.sub, g.idx), &out).await }
                    }
                    info.tag("work");
                }
                c.close().await;
            }
            Phase::Huge { chunks, cancel } => {
                let id = http.submit(&json!({"chunk_contents": {"SeeObjectStorage": {"prefix": "p", "count": chunks}}, "chunk_size": 1})).await?;
                if *cancel {
                    http.cancel(id).await?;
                } else {
                    ids.push(id);
                }
                (sum, most) = (chunks * 40, chunks * 40);
                info.tag("huge");
            }
            Phase::Cancel { nth } => {
                http.cancel(ids[*nth as usize % ids.len()]).await?;
                info.tag("cancel");
            }
            Phase::Reader { ms, times, bytes } => {
                reader = true;
                let mut c = open_reader(&file).await?;
                sqlx::query("BEGIN").execute(&mut c).await.map_err(infra_err)?;
                let _: i64 = sqlx::query_scalar("SELECT COUNT(*) FROM submissions").fetch_one(&mut c).await.map_err(infra_err)?;
                let s = submission(1, *bytes, 1);
                let work = async {
                    let mut out = vec![];
                    for _ in 0..*times {
                        out.push(http.submit(&s).await);
                    }
                    out
                };
                let held = async {
                    tokio::time::sleep(Duration::from_millis(*ms)).await;
                    let _ = sqlx::query("ROLLBACK").execute(&mut c).await;
                };
                let (new, ()) = tokio::join!(work, held);
                for id in new {
                    ids.push(id?);
                }
                let _ = c.close().await;
                info.tag("reader");
            }
        }
        big |= most > 5 * MIB || sum > 16 * MIB;
        sum_all += sum;
        most_all = most_all.max(most);
        // while this goes on, the log holds a part of it only
        let (max, allowed) = (top.load(Ordering::SeqCst), 6 * MIB + 4 * most_all + sum_all / 2);
        info.evals += 1;
        if !reader && max > allowed {
            return fail_p(&["P28"], "the write-ahead log keeps growing", format!("{max} bytes (at most {allowed} expected) while {sum} bytes were written, {sum_all} in all: {ph:?}"));
        }
        // before long the database file holds everything by itself
        let end = Instant::now() + wait;
        loop {
            let live = counts(&file).await?;
            let main = std::fs::read(&file).map_err(infra_err)?;
            for ext in ["-wal", "-shm"] {
                let _ = std::fs::remove_file(format!("{copy}{ext}"));
            }
            std::fs::write(&copy, &main).map_err(infra_err)?;
            drop(main);
            // (a copy that was made during a checkpoint cannot be read)
            let same = match counts(&copy).await {
                Ok(d) if d == live => {
                    let live = dump(&file).await?;
                    info.evals += live.len() as u64;
                    dump(&copy).await.is_ok_and(|d| d == live)
                }
                _ => false,
            };
            if same {
                break;
            }
            heartbeat();
            if Instant::now() > end {
                return fail_p(&["P28"], "what was written stays in the write-ahead log only", format!("for {wait:?}, {} bytes, after {ph:?}", size(&file)));
            }
            tokio::time::sleep(Duration::from_millis(50)).await;
        }
        // and what it took is given back when more is written
        let end = Instant::now() + wait;
        loop {
            ids.push(http.submit(&submission(1, 1, 2)).await?);
            if size(&file) <= 5 * MIB {
                break;
            }
            heartbeat();
            if Instant::now() > end {
                return fail_p(&["P28"], "the write-ahead log stays as long as it once was", format!("for {wait:?}, {} bytes, after {ph:?}", size(&file)));
            }
            tokio::time::sleep(Duration::from_millis(50)).await;
        }
        info.evals += 1;
    }
    stop.store(true, Ordering::SeqCst);
    for o in others {
        let _ = o.await;
    }
    check!(real.exited().is_none(), "the program ended by itself", "{}", real.tail());
    info.nontrivial = big;
    Ok(info)
}
