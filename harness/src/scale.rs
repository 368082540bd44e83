//! Large submissions, long progress and many attempts. States that would take long to reach are
//! made in the database in the way in which the server leaves them, and everything from there on
//! goes through opsqueue's own functions.
use crate::dbm::{cid, open_single, sid};
use crate::engine::*;
use crate::rng::Rng;
use crate::util::*;
use opsqueue::common::chunk::{self, ChunkSize};
use opsqueue::common::submission::{self, SubmissionStatus};
use serde::{Deserialize, Serialize};
use sqlx::Row;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Complete,
    Fail,
    Cancel,
    Leave,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScaleCase {
    pub chunks: u64,
    /// how many chunks are still to be done when the long way is over
    pub left: u64,
    pub limit: u32,
    /// attempts of the chunk that fails that are still left
    pub attempts: u64,
    pub end: End,
    /// where the chunks that are left are
    pub salt: u64,
}
pub struct Scale;

impl Prop for Scale {
    type Case = ScaleCase;
    fn name(&self) -> &'static str {
        "scale"
    }
    fn rule(&self) -> &'static str {
        "a submission of more than 65536 chunks, or a limit of more than 255 attempts that was reached"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> ScaleCase {
        let chunks = match rng.below(6) {
            0 => rng.range(1, 300),
            1 => *rng.pick(&[999, 1000, 1001, 1999, 2000, 2001, 3000]),
            2 => rng.range(65_530, 65_545),
            3 => rng.range(65_537, 140_000),
            4 => rng.range(1, 3000),
            _ => rng.range(20_000, 66_000),
        };
        let limit = match rng.below(6) {
            0 => rng.range(1, 20),
            1 => rng.range(120, 135),
            2 => rng.range(250, 300),
            3 => rng.range(32_760, 65_600),
            4 => rng.range(i32::MAX as u64 - 3, i32::MAX as u64 + 5),
            _ => u64::from(u32::MAX) - rng.below(3),
        };
        ScaleCase { chunks, left: rng.range(1, 12).min(chunks), limit: limit as u32, attempts: rng.range(1, 4).min(limit), end: *rng.pick(&[End::Complete, End::Complete, End::Fail, End::Fail, End::Cancel, End::Leave]), salt: rng.u64() }
    }
    fn shrink(&self, c: &ScaleCase) -> Vec<ScaleCase> {
        let mut out = vec![];
        for chunks in [c.chunks / 2, c.chunks - c.chunks / 8, c.chunks - 1] {
            if chunks > 0 && chunks < c.chunks {
                out.push(ScaleCase { chunks, left: c.left.min(chunks), ..c.clone() });
            }
        }
        if c.limit > 4 {
            out.push(ScaleCase { limit: 4, ..c.clone() });
        }
        if c.left > 1 {
            out.push(ScaleCase { left: 1, ..c.clone() });
        }
        out
    }
    fn run(&self, case: &ScaleCase, _: Mode) -> RunResult {
        rt().block_on(run(case))
    }
}

fn content(i: u64) -> Vec<u8> {
    i.to_le_bytes()[..(1 + i as usize % 8)].to_vec()
}

async fn run(case: &ScaleCase) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let db = open_single(&file).await?;
    let n = case.chunks;
    let all = ["P01", "P02", "P03", "P04", "P06"];
    let insert = async |k: u64| {
        let mut conn = db.w.writer_conn().await?;
        submission::db::insert_submission_from_chunks(Some(format!("s{k}")), (0..k).map(|i| Some(content(i))).collect(), None, Default::default(), ChunkSize::default(), &mut conn).await
    };
    let id = match insert(n).await {
        Ok(i) => u64::from(i),
        Err(e) => return fail_p(&["P01"], "a large submission was refused", format!("{n} chunks: {e}")),
    };
    // something else that nothing of this concerns
    let other = u64::from(insert(3).await.map_err(infra_err)?);
    let exact = async |place: &str, cond: &str, want: &[bool], props: &[&'static str]| -> Result<u64, RunError> {
        let rows = sqlx::query(sqlx::AssertSqlSafe(format!("SELECT chunk_index, {} FROM {place} WHERE submission_id = ? {cond} ORDER BY chunk_index", if place == "chunks_completed" { "output_content" } else { "input_content" }))).bind(id as i64).fetch_all(&db.pool).await.map_err(infra_err)?;
        let mut it = (0..n).filter(|i| want[*i as usize]);
        for r in &rows {
            let i = r.get::<i64, _>(0) as u64;
            match it.next() {
                Some(w) if w == i => {}
                w => return fail_p(props, "the chunks of a large submission are not what they have to be", format!("{n} chunks: {i} is in {place} {cond}, required {w:?}")),
            }
            if place != "chunks_completed" && r.get::<Option<Vec<u8>>, _>(1) != Some(content(i)) {
                return fail_p(&["P03"], "a chunk of a large submission has the wrong content", format!("{i} of {n}: {:?}", r.get::<Option<Vec<u8>>, _>(1)));
            }
        }
        if let Some(w) = it.next() {
            return fail_p(props, "the chunks of a large submission are not what they have to be", format!("{n} chunks: {w} is not in {place} {cond}"));
        }
        Ok(rows.len() as u64)
    };
    info.evals += exact("chunks", "", &vec![true; n as usize], &["P01"]).await?;
    // ---- the long way
    let mut rng = Rng::new(case.salt);
    let mut left: Vec<u64> = vec![];
    while (left.len() as u64) < case.left {
        let i = match rng.below(4) {
            0 => rng.below(n.min(4)),
            1 => n - 1 - rng.below(n.min(4)),
            2 => (65_534 + rng.below(5)).min(n - 1),
            _ => rng.below(n),
        };
        if !left.contains(&i) {
            left.push(i);
        } else if case.left > n / 2 {
            left = (0..case.left).collect();
        }
    }
    let list = left.iter().map(u64::to_string).collect::<Vec<_>>().join(",");
    for q in [
        format!("INSERT INTO chunks_completed (submission_id, chunk_index, output_content, completed_at) SELECT submission_id, chunk_index, NULL, julianday() FROM chunks WHERE submission_id = {id} AND chunk_index NOT IN ({list})"),
        format!("DELETE FROM chunks WHERE submission_id = {id} AND chunk_index NOT IN ({list})"),
        format!("UPDATE submissions SET chunks_done = {} WHERE id = {id}", n - case.left),
        format!("UPDATE chunks SET retries = {} WHERE submission_id = {id} AND chunk_index = {}", u64::from(case.limit) - case.attempts.min(u64::from(case.limit)), left[0]),
    ] {
        sqlx::query(sqlx::AssertSqlSafe(q)).execute(&db.pool).await.map_err(infra_err)?;
    }
    // ---- and on
    let mut pending = vec![false; n as usize];
    for i in &left {
        pending[*i as usize] = true;
    }
    let done_flags = |p: &[bool]| p.iter().map(|b| !b).collect::<Vec<bool>>();
    let mut conn = db.w.writer_conn().await.map_err(infra_err)?;
    let progress = async |conn: &mut _, done: u64, props: &[&'static str]| -> Result<(), RunError> {
        match submission::db::submission_status(sid(id), conn).await {
            Ok(Some(SubmissionStatus::InProgress(s))) if u64::from(s.chunks_done) == done && u64::from(s.chunks_total) == n => Ok(()),
            o => fail_p(props, "a large submission is not reported as it is", format!("{done} of {n} done: {o:?}")),
        }
    };
    progress(&mut conn, n - case.left, &["P01", "P02"]).await?;
    let text = format!("attempt {}", case.salt % 1000);
    let keep = if case.end == End::Complete { 0 } else { 1 };
    // all but the first (the one with the attempts)
    for k in (keep as usize..left.len()).rev() {
        if case.end != End::Complete && k < 2 {
            continue;
        }
        // (twice: the second has no effect)
        for again in [false, true] {
            let r = chunk::db::complete_chunk(cid(id, left[k]), Some(vec![1]), &mut conn).await;
            info.evals += 1;
            if r.is_ok() == again {
                return fail_p(&["P02"], "completing a chunk of a large submission has the wrong result", format!("{} of {n}, again {again}: {r:?}", left[k]));
            }
        }
        pending[left[k] as usize] = false;
        let open = pending.iter().filter(|b| **b).count() as u64;
        if open > 0 {
            progress(&mut conn, n - open, &["P02", "P01"]).await?;
        }
    }
    let open: Vec<u64> = (0..n).filter(|i| pending[*i as usize]).collect();
    let status = async |conn: &mut _| submission::db::submission_status(sid(id), conn).await;
    match case.end {
        End::Complete => {
            match status(&mut conn).await {
                Ok(Some(SubmissionStatus::Completed(s))) if u64::from(s.chunks_total) == n => {}
                o => return fail_p(&["P02"], "a large submission is not completed although all its chunks are", format!("{n}: {o:?}")),
            }
        }
        End::Fail => {
            for a in 1..=case.attempts {
                let r = chunk::db::retry_or_fail_chunk(cid(id, left[0]), text.clone(), &mut conn, case.limit).await;
                info.evals += 1;
                let last = a == case.attempts;
                match r {
                    Ok(p) if p == last => {}
                    o => return fail_p(&["P04"], "a chunk with many attempts fails too early or too late", format!("attempt {} of {}: {o:?}", u64::from(case.limit) - case.attempts + a, case.limit)),
                }
                if !last {
                    let r: i64 = sqlx::query_scalar("SELECT retries FROM chunks WHERE submission_id = ? AND chunk_index = ?").bind(id as i64).bind(left[0] as i64).fetch_one(conn_inner(&mut conn)).await.map_err(infra_err)?;
                    if r as u64 != u64::from(case.limit) - case.attempts + a {
                        return fail_p(&["P04"], "a wrong number of attempts is recorded", format!("{r}"));
                    }
                }
            }
            match status(&mut conn).await {
                Ok(Some(SubmissionStatus::Failed(s, c))) if u64::from(s.chunks_total) == n && u64::from(s.failed_chunk_id) == left[0] && c.failure == text && c.input_content == Some(content(left[0])) && u64::from(c.chunk_index) == left[0] => {}
                o => return fail_p(&["P04"], "a large submission is not failed as it has to be", format!("chunk {} of {n}: {o:?}", left[0])),
            }
        }
        End::Cancel => {
            if let Err(e) = submission::db::cancel_submission(sid(id), &mut conn).await {
                return fail_p(&["P06"], "cancelling a large submission fails", format!("{n}: {e:?}"));
            }
            match status(&mut conn).await {
                Ok(Some(SubmissionStatus::Cancelled(s))) if u64::from(s.chunks_total) == n && u64::from(s.chunks_done) == n - open.len() as u64 => {}
                o => return fail_p(&["P06"], "a large submission is not cancelled as it has to be", format!("{n}: {o:?}")),
            }
        }
        End::Leave => {}
    }
    drop(conn);
    let (mut still, mut ended) = (vec![false; n as usize], vec![false; n as usize]);
    for i in open {
        let place = if case.end == End::Leave { &mut still } else { &mut ended };
        place[i as usize] = true;
    }
    let props: &[&'static str] = match case.end {
        End::Complete => &["P01", "P02"],
        End::Fail => &["P01", "P04"],
        End::Cancel => &["P01", "P06"],
        End::Leave => &["P01"],
    };
    info.evals += exact("chunks", "", &still, props).await?;
    info.evals += exact("chunks_completed", "", &done_flags(&pending), props).await?;
    info.evals += exact("chunks_failed", "", &ended, props).await?;
    let mut text_only = vec![false; n as usize];
    if case.end == End::Fail {
        text_only[left[0] as usize] = true;
    }
    info.evals += exact("chunks_failed", "AND skipped = 0", &text_only, props).await?;
    let rest: i64 = sqlx::query_scalar("SELECT COUNT(*) FROM chunks WHERE submission_id = ?").bind(other as i64).fetch_one(&db.pool).await.map_err(infra_err)?;
    if rest != 3 {
        return fail_p(&all, "another submission lost chunks", format!("{rest} of 3"));
    }
    if n > 65_536 {
        info.tag("more-than-65536-chunks");
    }
    if case.end == End::Fail && case.limit > 255 {
        info.tag("more-than-255-attempts");
    }
    info.nontrivial = n > 65_536 || (case.end == End::Fail && case.limit > 255);
    info.tag(match case.end {
        End::Complete => "completed",
        End::Fail => "failed",
        End::Cancel => "cancelled",
        End::Leave => "left",
    });
    Ok(info)
}

fn conn_inner<C: opsqueue::db::Connection>(c: &mut C) -> &mut sqlx::SqliteConnection {
    c.get_inner()
}
