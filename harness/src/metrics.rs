//! P27: what the server program says about itself (`/metrics`, `/ping`) against what happened.
use super::*;
use crate::dbm::sid;

#[derive(Clone, Copy, Debug, Default)]
pub struct Totals {
    subs: u64,
    chunks: u64,
    done: u64,
    failed: u64,
    skipped: u64,
    retried: u64,
    completed: u64,
    failed_subs: u64,
    cancelled: u64,
    /// seconds from their start to their end
    took: [f64; 3],
}
impl Totals {
    pub fn of(model: &[MSub]) -> Totals {
        let mut t = Totals::default();
        for m in model {
            t.subs += 1;
            t.chunks += m.chunks.len() as u64;
            t.retried += m.retried;
            for c in &m.chunks {
                match c {
                    MChunk::Done { .. } => t.done += 1,
                    MChunk::Failed { .. } => t.failed += 1,
                    MChunk::Skipped => t.skipped += 1,
                    MChunk::Pending { .. } => {}
                }
            }
            let k = match m.state {
                MState::InProgress => continue,
                MState::Completed => {
                    t.completed += 1;
                    0
                }
                MState::Failed(_) => {
                    t.failed_subs += 1;
                    1
                }
                MState::Cancelled => {
                    t.cancelled += 1;
                    2
                }
            };
            let end = m.ended_at.as_ref().and_then(|v| v[0][1].as_str()?.parse::<chrono::DateTime<chrono::Utc>>().ok());
            if let Some(end) = end {
                t.took[k] += (end - sid(m.id).timestamp()).as_seconds_f64();
            }
        }
        t
    }
}

/// The samples without labels
pub fn parse(text: &str) -> Result<BTreeMap<String, f64>, String> {
    let mut out = BTreeMap::new();
    for l in text.lines() {
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (name, val) = l.rsplit_once(' ').ok_or_else(|| format!("not a sample: {l}"))?;
        let v: f64 = val.parse().map_err(|_| format!("not a number: {l}"))?;
        if !name.contains('{') && out.insert(name.to_string(), v).is_some() {
            return Err(format!("twice: {l}"));
        }
    }
    Ok(out)
}

impl Drv {
    async fn metrics(&mut self) -> Result<BTreeMap<String, f64>, RunError> {
        let (code, body) = self.http.get("/metrics").await?;
        let text = body.as_str().map(str::to_string).unwrap_or_else(|| body.to_string());
        if code != 200 {
            return fail_p(&["P27"], "the metrics are not served", format!("{code} {text}"));
        }
        self.evals += 1;
        match parse(&text) {
            Ok(m) => Ok(m),
            Err(e) => fail_p(&["P27"], "the metrics cannot be read", e),
        }
    }

    /// Submissions the database refuses, so that they did not happen
    async fn refused_submissions(&mut self, n: usize) -> Result<(), RunError> {
        let table = if self.model.len() % 2 == 0 { "submissions" } else { "chunks" };
        sqlx::query(sqlx::AssertSqlSafe(format!("CREATE TRIGGER refuse BEFORE INSERT ON {table} BEGIN SELECT RAISE(ABORT, 'refused'); END"))).execute(&mut self.db).await.map_err(infra_err)?;
        for i in 0..n {
            let spec = SubSpec { contents: Contents::Direct(vec![Some(vec![1]); i + 1]), metadata: None, strategic: BTreeMap::new(), chunk_size: None };
            let (code, v) = self.http.post("/producer/submissions", &spec.to_json()).await?;
            if code < 500 {
                return fail_p(&["P27", "P24", "P10"], "a submission that was not stored is acknowledged", format!("{code} {v}"));
            }
            self.tag("refused-by-the-database");
        }
        sqlx::query("DROP TRIGGER refuse").execute(&mut self.db).await.map_err(infra_err)?;
        Ok(())
    }

    /// All is quiet: wait for the metrics to say what the model says.
    pub(super) async fn check_metrics(&mut self) -> Result<(), RunError> {
        if self.model.len() % 3 > 0 {
            self.refused_submissions(self.model.len() % 3).await?;
        }
        for i in 0..self.model.len() {
            self.check_sub(&SOp::Connect, i).await?; // learns the times of the ends
        }
        let (b, t) = (self.before, Totals::of(&self.model));
        let live = |m: &&MSub| m.state == MState::InProgress;
        let backlog = |m: &MSub| m.chunks.iter().filter(|c| matches!(c, MChunk::Pending { .. })).count() as f64;
        let open = self.cons.iter().flatten().count() as f64;
        let ops: f64 = self.model.iter().filter(live).map(|m| backlog(m) * m.spec.chunk_size.unwrap_or(1) as f64).sum();
        // the sum is over floating-point numbers of both signs, in any order
        let rough: f64 = self.model.iter().filter(live).map(|m| backlog(m) * (m.spec.chunk_size.unwrap_or(1) as f64).abs()).sum();
        let slack = |n: &str, v: f64| if n.starts_with("operations") { rough * 1e-12 } else { v.abs() * 1e-9 };
        let mut want: Vec<(&str, f64)> = vec![
            ("submissions_total_count", (t.subs - b.subs) as f64),
            ("submissions_completed_count", (t.completed - b.completed) as f64),
            ("submissions_failed_count", (t.failed_subs - b.failed_subs) as f64),
            ("submissions_cancelled_count", (t.cancelled - b.cancelled) as f64),
            ("submissions_complete_duration_seconds_count", (t.completed - b.completed) as f64),
            ("submissions_fail_duration_seconds_count", (t.failed_subs - b.failed_subs) as f64),
            ("submissions_cancel_duration_seconds_count", (t.cancelled - b.cancelled) as f64),
            ("chunks_total_count", (t.chunks - b.chunks) as f64),
            ("chunks_completed_count", (t.done - b.done) as f64),
            ("chunks_failed_count", (t.failed - b.failed) as f64),
            ("chunks_skipped_count", (t.skipped - b.skipped) as f64),
            ("chunks_retried_count", (t.retried - b.retried) as f64),
            ("chunks_duration_completed_seconds_count", self.held_done as f64),
            ("chunks_duration_failure_seconds_count", self.held_failed as f64),
            // these follow within seconds
            ("consumers_connected_count", open),
            ("reserver_chunks_reserved_count", self.holds.len() as f64),
            ("chunks_in_backlog_count", self.model.iter().filter(live).map(backlog).sum()),
            ("operations_in_backlog_count", ops),
        ];
        let names: Vec<String> = want.iter().map(|w| w.0.to_string()).collect();
        let end = Instant::now() + Duration::from_secs(if self.slow { 40 } else { 20 });
        let mut first = None;
        let got = loop {
            heartbeat();
            let got = self.metrics().await?;
            want.retain(|(n, v)| (got.get(*n).copied().unwrap_or(0.0) - v).abs() > slack(n, *v));
            if first.is_none() {
                first = Some(got.clone());
            }
            if want.is_empty() {
                break got;
            }
            if Instant::now() > end {
                let all: Vec<String> = want.iter().map(|(n, v)| format!("{n} is {:?}, required {v}", got.get(*n))).collect();
                return fail_p(&["P27"], format!("a metric does not match: {}", want[0].0), all.join("; "));
            }
            tokio::time::sleep(Duration::from_millis(250)).await;
        };
        // and they stay so
        tokio::time::sleep(Duration::from_millis(5300)).await;
        let later = self.metrics().await?;
        for n in &names {
            if later.get(n) != got.get(n) && !(n == "chunks_in_backlog_count" || n == "operations_in_backlog_count" || n.starts_with("reserver") || n.starts_with("consumers")) {
                return fail_p(&["P27"], format!("a metric changes while nothing happens: {n}"), format!("{:?}, then {:?}", got.get(n), later.get(n)));
            }
        }
        for (n, v) in [("chunks_in_backlog_count", self.model.iter().filter(live).map(backlog).sum()), ("operations_in_backlog_count", ops), ("consumers_connected_count", open), ("reserver_chunks_reserved_count", self.holds.len() as f64)] {
            let g = later.get(n).copied().unwrap_or(0.0);
            if f64::abs(g - v) > slack(n, v) {
                return fail_p(&["P27"], format!("a metric does not match: {n}"), format!("{n} is {g} after it was right, required {v}"));
            }
        }
        for (n, k, count) in [("submissions_complete_duration_seconds_sum", 0, t.completed - b.completed), ("submissions_fail_duration_seconds_sum", 1, t.failed_subs - b.failed_subs), ("submissions_cancel_duration_seconds_sum", 2, t.cancelled - b.cancelled)] {
            let (g, w) = (later.get(n).copied().unwrap_or(0.0), t.took[k] - b.took[k]);
            if (g - w).abs() > 0.5 * count as f64 + 0.01 {
                return fail_p(&["P27"], format!("a duration does not match: {n}"), format!("{n} is {g}, required {w}, of {count}"));
            }
        }
        let (code, body) = self.http.get("/ping").await?;
        if code != 200 || body != json!("pong") {
            return fail_p(&["P27", "P26"], "a healthy server does not say so", format!("/ping: {code} {body}"));
        }
        for (n, v) in &later {
            if *v > 0.0 && names.contains(n) {
                self.tag(format!("metric:{n}"));
            }
        }
        self.tag("metrics-compared");
        Ok(())
    }
}
