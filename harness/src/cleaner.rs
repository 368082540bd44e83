//! P16: the cleanup that the real server program runs by itself, at start and every minute.
use crate::check;
use crate::dbm::*;
use crate::engine::*;
use crate::model::*;
use crate::real::*;
use crate::rng::Rng;
use crate::util::*;
use serde::{Deserialize, Serialize};
use sqlx::Connection;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CleanerCase {
    pub hist: Case,
    pub max_age: u64,
    /// by submission: how much older than the retention age it is made, in seconds
    pub older: Vec<i64>,
    /// the server is stopped and started again after the first cleanup
    pub restart: bool,
}
pub struct Cleaner;

fn mix() -> SpecGen {
    SpecGen { max_chunks: 4, ..Default::default() }
}
const DAY: f64 = 86_400.0;

impl Prop for Cleaner {
    type Case = CleanerCase;
    fn name(&self) -> &'static str {
        "server-cleanup"
    }
    fn rule(&self) -> &'static str {
        "the first cleanup removed some and kept some, and the second one removed some of those"
    }
    fn threads(&self) -> usize {
        32
    }
    fn generate(&self, rng: &mut Rng, _: u64, tier: Tier) -> CleanerCase {
        let p = Profile { name: "", rule: "", w: [10, 6, 6, 8, 6, 6, 0, 0, 0, 0, 0, 0], len: (20, 60), spec: mix, nontrivial: |_| true };
        let hist = gen_case(&p, rng, tier);
        CleanerCase {
            hist,
            max_age: *rng.pick(&[1, 10, 3600, 86_400 * 30]),
            older: (0..12).map(|_| *rng.pick(&[-1_000_000i64, -3600, -100, -35, -20, 10, 30, 61, 3600, 1_000_000])).collect(),
            restart: rng.chance(1, 3),
        }
    }
    fn shrink(&self, c: &CleanerCase) -> Vec<CleanerCase> {
        shrink_vec(&c.hist.ops).into_iter().take(6).map(|ops| CleanerCase { hist: Case { ops, ..c.hist.clone() }, ..c.clone() }).collect()
    }
    fn run(&self, case: &CleanerCase, _: Mode) -> RunResult {
        let rt = rt();
        let r = rt.block_on(run(case));
        rt.shutdown_background();
        r
    }
}

async fn run(case: &CleanerCase) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let mut d = Driver::new(open_single(&file).await?, case.hist.max_retries);
    for op in &case.hist.ops {
        d.apply(op).await?;
    }
    d.check_all(&Op::Cleanup { mark: 0 }).await?;
    d.db.pool.close().await;
    // ---- make them old
    let age_of = |i: usize| case.older[i % case.older.len()].max(-(case.max_age as i64));
    let mut c = crate::srv::open_reader(&file).await?;
    for (i, m) in d.model.iter_mut().enumerate() {
        let back = (case.max_age as i64 + age_of(i)) as f64 / DAY;
        for (t, col, id) in [("submissions_completed", "completed_at", "id"), ("submissions_failed", "failed_at", "id"), ("submissions_cancelled", "cancelled_at", "id"), ("chunks_completed", "completed_at", "submission_id"), ("chunks_failed", "failed_at", "submission_id")] {
            sqlx::query(sqlx::AssertSqlSafe(format!("UPDATE {t} SET {col} = {col} - ? WHERE {id} = ?"))).bind(back).bind(m.id as i64).execute(&mut c).await.map_err(infra_err)?;
        }
        m.ended_at = None;
        m.alive = chrono::DateTime::UNIX_EPOCH;
    }
    let _ = c.close().await;
    // ---- the server by itself
    let age = format!("{}s", case.max_age);
    let started = Instant::now();
    let mut srv = Real::start(&file, &["--max-submission-age", &age], &[]).await?;
    let mut first = 0;
    let (mut removed, mut kept) = (0, 0);
    sweep(&srv, &mut d.model, &|i| if age_of(i) >= 10 { Some(true) } else { (age_of(i) <= -20).then_some(false) }, Duration::from_secs(25), "at start", &mut info).await?;
    for m in &d.model {
        if m.removed {
            first += 1;
        } else if m.state != MState::InProgress {
            kept += 1;
        }
    }
    if started.elapsed() > Duration::from_secs(15) {
        // too slow to tell the two sweeps apart
        info.tag("slow");
        return Ok(info);
    }
    if case.restart {
        if !srv.interrupt(Duration::from_secs(10)).await {
            return infra("the server does not stop");
        }
        srv = Real::start(&file, &["--max-submission-age", &age], &[]).await?;
        info.tag("restart");
    }
    // ---- a minute later
    tokio::time::sleep(Duration::from_secs(59).saturating_sub(if case.restart { Duration::ZERO } else { started.elapsed() })).await;
    sweep(&srv, &mut d.model, &|i| if age_of(i) >= -35 { Some(true) } else { (age_of(i) <= -3600).then_some(false) }, Duration::from_secs(25), "after a minute", &mut info).await?;
    for m in &d.model {
        if m.removed {
            removed += 1;
        }
    }
    check!(srv.exited().is_none(), "the server ended by itself", "{}", srv.tail());
    // what is in progress is never removed and can still be finished
    srv.kill();
    CLEANED.with(|c| c.set(u64::MAX));
    d.db = open_single(&file).await?;
    for (i, m) in d.model.iter_mut().enumerate() {
        // -100: it may or may not be gone
        if !m.removed && m.state != MState::InProgress && age_of(i) > -3600 {
            let mut conn = d.db.w.writer_conn().await.map_err(infra_err)?;
            m.removed = opsqueue::common::submission::db::submission_status(sid(m.id), &mut conn).await.map_err(infra_err)?.is_none();
        }
    }
    d.check_all(&Op::Cleanup { mark: 0 }).await?;
    for i in 0..d.model.len() {
        if d.model[i].state == MState::InProgress {
            info.tag("in-progress-finished-afterwards");
            let op = Op::CompleteRest { sub: i as u32 };
            d.apply(&op).await?;
            d.check_all(&op).await?;
        }
    }
    info.evals += d.evals;
    info.tag_n("removed-at-start", first);
    info.tag_n("removed-after-a-minute", removed - first);
    info.nontrivial = first > 0 && kept > 0 && removed > first;
    d.db.pool.close().await;
    Ok(info)
}

/// `gone`: whether a submission must be gone by now, must still be there, or either
async fn sweep(srv: &Real, model: &mut [MSub], gone: &dyn Fn(usize) -> Option<bool>, limit: Duration, when: &str, info: &mut CaseInfo) -> Result<(), RunError> {
    let web = srv.http();
    let end = Instant::now() + limit;
    for (i, m) in model.iter_mut().enumerate() {
        if m.removed || m.state == MState::InProgress || gone(i) != Some(true) {
            continue;
        }
        loop {
            info.evals += 1;
            let s = web.status(m.id).await?;
            if s.is_null() {
                m.removed = true;
                break;
            }
            check!(Instant::now() < end, "an old submission is not removed", "{when}: {s}");
            tokio::time::sleep(Duration::from_millis(100)).await;
        }
    }
    for (i, m) in model.iter_mut().enumerate() {
        if m.removed || (m.state != MState::InProgress && gone(i) != Some(false)) {
            continue;
        }
        let s = web.status(m.id).await?;
        match m.check_status(&s) {
            Ok(n) => info.evals += n,
            Err((_, sig, msg)) => return fail(format!("{when}: {sig}"), msg),
        }
    }
    Ok(())
}
