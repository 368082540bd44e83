//! P22: databases as earlier versions wrote them (golden copies of the schema scripts, applied up
//! to a generated level and filled with generated rows) are opened by the current code.
use crate::engine::*;
use crate::model::*;
use crate::real::dump;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sqlx::{Connection, Row};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    InProgress,
    Completed,
    Failed,
    Cancelled,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OldSub {
    pub spec: SubSpec,
    pub end: End,
    /// per chunk: done, and if not: the number of retries so far
    pub chunks: Vec<(bool, u64)>,
    pub age_s: u64,
    pub trace: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UpgradeCase {
    /// number of schema scripts applied; 0: there is no file yet
    pub level: usize,
    /// scripts of a later version that have been applied
    pub newer: u64,
    pub subs: Vec<OldSub>,
    /// rows to insert one by one or in one go
    pub wal: bool,
}

fn golden() -> &'static Vec<sqlx::migrate::Migration> {
    static G: OnceLock<Vec<sqlx::migrate::Migration>> = OnceLock::new();
    G.get_or_init(|| {
        std::thread::spawn(|| {
            let dir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
            let m = rt().block_on(sqlx::migrate::Migrator::new(std::path::Path::new(&dir).join("harness/golden"))).expect("golden schema scripts");
            m.iter().filter(|m| m.migration_type.is_up_migration()).cloned().collect()
        })
        .join()
        .expect("golden schema scripts")
    })
}

pub struct Upgrade;
impl Prop for Upgrade {
    type Case = UpgradeCase;
    fn name(&self) -> &'static str {
        "upgrades"
    }
    fn rule(&self) -> &'static str {
        "the old database had unfinished work and ended submissions"
    }
    fn generate(&self, rng: &mut Rng, i: u64, _: Tier) -> UpgradeCase {
        let top = golden().len() as u64;
        let level = match i % 14 {
            0 => 0,
            1 => top,
            _ => rng.range(2, top),
        } as usize;
        let newer = if level as u64 == top && rng.chance(1, 2) { rng.range(1, 2) } else { 0 };
        let g = SpecGen { zero: 0, ..Default::default() };
        let subs = (0..if level == 0 { 0 } else { rng.range(1, 8) })
            .map(|_| {
                let mut spec = g.spec(rng);
                if level < 6 {
                    spec.strategic.clear();
                }
                if level < 7 {
                    spec.chunk_size = None;
                } else {
                    spec.chunk_size = Some(spec.chunk_size.unwrap_or(1));
                }
                let end = *rng.pick(&[End::InProgress, End::InProgress, End::Completed, End::Failed, if level >= 9 { End::Cancelled } else { End::InProgress }]);
                let mut chunks: Vec<(bool, u64)> = (0..spec.len()).map(|_| (end == End::Completed || rng.chance(1, 3), if rng.chance(1, 3) { rng.range(1, 6) } else { 0 })).collect();
                if end != End::Completed && chunks.iter().all(|c| c.0) {
                    let n = rng.usize(chunks.len());
                    chunks[n].0 = false;
                }
                OldSub { spec, end, chunks, age_s: rng.range(1, 500), trace: if level >= 5 && rng.chance(1, 2) { "{\"traceparent\":\"00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01\"}".into() } else { "{}".into() } }
            })
            .collect();
        UpgradeCase { level, newer, subs, wal: rng.chance(1, 2) }
    }
    fn shrink(&self, c: &UpgradeCase) -> Vec<UpgradeCase> {
        shrink_vec(&c.subs).into_iter().map(|subs| UpgradeCase { subs, ..c.clone() }).collect()
    }
    fn run(&self, case: &UpgradeCase, _: Mode) -> RunResult {
        let _ = golden();
        rt().block_on(run_upgrade(case))
    }
}

async fn exec(c: &mut sqlx::SqliteConnection, sql: &str, binds: Vec<B>) -> Result<(), RunError> {
    let mut q = sqlx::query(sqlx::AssertSqlSafe(sql.to_string()));
    for b in binds {
        q = match b {
            B::I(i) => q.bind(i),
            B::T(t) => q.bind(t),
            B::Bl(b) => q.bind(b),
        };
    }
    q.execute(c).await.map(|_| ()).map_err(|e| infra_err(format!("{sql}: {e}")))
}
enum B {
    I(i64),
    T(Option<String>),
    Bl(Option<Vec<u8>>),
}

async fn schema(file: &str) -> Result<Vec<String>, RunError> {
    let mut c = open_reader(file).await?;
    let mut out = vec![];
    let names: Vec<(String, String)> = sqlx::query("SELECT type, name FROM sqlite_master WHERE name NOT LIKE 'sqlite_%' AND name NOT LIKE '_sqlx%' ORDER BY type, name").fetch_all(&mut c).await.map_err(infra_err)?.iter().map(|r| (r.get(0), r.get(1))).collect();
    for (t, n) in names {
        let q = if t == "index" { format!("SELECT name || '' FROM pragma_index_xinfo('{n}') WHERE key ORDER BY seqno") } else { format!("SELECT name || ' ' || type || ' ' || \"notnull\" || ' ' || coalesce(dflt_value, '-') || ' ' || pk || ' ' || hidden FROM pragma_table_xinfo('{n}') ORDER BY name") };
        let cols: Vec<Option<String>> = sqlx::query_scalar(sqlx::AssertSqlSafe(q)).fetch_all(&mut c).await.map_err(infra_err)?;
        out.push(format!("{t} {n}: {cols:?}"));
    }
    let _ = c.close().await;
    Ok(out)
}

async fn run_upgrade(case: &UpgradeCase) -> RunResult {
    const P: &[&str] = &["P22"];
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = dir.file("old.db");
    let mut models: BTreeMap<u64, MSub> = BTreeMap::new();
    let mut old_times = BTreeMap::new();
    let mut outputs: BTreeMap<(u64, u64), Option<Vec<u8>>> = BTreeMap::new();
    let now = chrono::Utc::now();
    let fmt = |t: chrono::DateTime<chrono::Utc>| t.format("%Y-%m-%d %H:%M:%S%.3f").to_string();
    if case.level > 0 {
        use sqlx::ConnectOptions;
        let mut o = sqlx::sqlite::SqliteConnectOptions::new().filename(&file).create_if_missing(true).foreign_keys(true);
        if case.wal {
            o = o.journal_mode(sqlx::sqlite::SqliteJournalMode::Wal);
        }
        let mut c = o.connect().await.map_err(infra_err)?;
        let mut m = sqlx::migrate::Migrator::DEFAULT;
        m.migrations = Cow::Owned(golden()[..case.level].to_vec());
        m.run(&mut c).await.map_err(|e| infra_err(format!("old schema: {e}")))?;
        let l = case.level;
        let base_ms = (now.timestamp_millis() - 600_000) as u64;
        for (n, s) in case.subs.iter().enumerate() {
            let id = ((base_ms + n as u64 * 7) << 22) | (n as u64 % 3);
            let at = fmt(now - chrono::Duration::seconds(s.age_s as i64));
            let mut ms = MSub::new(id, s.spec.clone(), 0);
            let contents = s.spec.chunk_contents();
            let done = s.chunks.iter().filter(|c| c.0).count() as i64;
            let first_bad = s.chunks.iter().position(|c| !c.0);
            let mut cols = vec!["id", "prefix", "chunks_total", "metadata"];
            let mut binds = vec![B::I(id as i64), B::T(s.spec.prefix()), B::I(contents.len() as i64), B::Bl(s.spec.metadata.clone())];
            let mut exprs: Vec<String> = vec!["?".into(); 4];
            let table = match s.end {
                End::InProgress => "submissions",
                End::Completed => "submissions_completed",
                End::Failed => "submissions_failed",
                End::Cancelled => "submissions_cancelled",
            };
            let mut put = |col: &'static str, b: B, e: &str| {
                cols.push(col);
                binds.push(b);
                exprs.push(e.into());
            };
            if matches!(s.end, End::InProgress | End::Cancelled) || (s.end == End::Failed && l >= 10) {
                put("chunks_done", B::I(done), "?");
            }
            match s.end {
                End::InProgress => {}
                End::Completed => put("completed_at", B::T(Some(at.clone())), "julianday(?)"),
                End::Failed => put("failed_at", B::T(Some(at.clone())), "julianday(?)"),
                End::Cancelled => put("cancelled_at", B::T(Some(at.clone())), "julianday(?)"),
            }
            if s.end == End::Failed {
                put("failed_chunk_id", B::I(first_bad.unwrap() as i64), "?");
            }
            if l >= 5 && s.end != End::Cancelled {
                put("otel_trace_carrier", B::T(Some(s.trace.clone())), "?");
            }
            if l >= 7 && s.end != End::Cancelled {
                put("chunk_size", B::I(s.spec.chunk_size.unwrap()), "?");
            }
            exec(&mut c, &format!("INSERT INTO {table} ({}) VALUES ({})", cols.join(","), exprs.join(",")), binds).await?;
            if l >= 6 {
                for (k, v) in &s.spec.strategic {
                    exec(&mut c, "INSERT INTO submissions_metadata (submission_id, metadata_key, metadata_value) VALUES (?, ?, ?)", vec![B::I(id as i64), B::T(Some(k.clone())), B::I(*v)]).await?;
                }
            }
            for (i, (content, (is_done, retries))) in contents.iter().zip(&s.chunks).enumerate() {
                let key = || vec![B::I(id as i64), B::I(i as i64)];
                let mut b = key();
                if *is_done {
                    let out = if i % 2 == 0 { Some(format!("out {id} {i}").into_bytes()) } else { None };
                    outputs.insert((id, i as u64), out.clone());
                    b.extend([B::Bl(out.clone()), B::T(Some(at.clone()))]);
                    exec(&mut c, "INSERT INTO chunks_completed (submission_id, chunk_index, output_content, completed_at) VALUES (?, ?, ?, julianday(?))", b).await?;
                    ms.chunks[i] = MChunk::Done { output: out, at: 0 };
                } else if s.end == End::InProgress {
                    b.extend([B::Bl(content.clone()), B::I(*retries as i64)]);
                    exec(&mut c, "INSERT INTO chunks (submission_id, chunk_index, input_content, retries) VALUES (?, ?, ?, ?)", b).await?;
                    ms.chunks[i] = MChunk::Pending { retries: *retries };
                    if (6..11).contains(&l) {
                        for (k, v) in &s.spec.strategic {
                            let mut b = key();
                            b.extend([B::T(Some(k.clone())), B::I(*v)]);
                            exec(&mut c, "INSERT INTO chunks_metadata (submission_id, chunk_index, metadata_key, metadata_value) VALUES (?, ?, ?, ?)", b).await?;
                        }
                    }
                } else {
                    let real = s.end == End::Failed && Some(i) == first_bad;
                    let text = if real { format!("failure of {id} é") } else { String::new() };
                    b.extend([B::Bl(content.clone()), B::Bl(Some(text.clone().into_bytes())), B::T(Some(at.clone())), B::I(i64::from(!real))]);
                    exec(&mut c, "INSERT INTO chunks_failed (submission_id, chunk_index, input_content, failure, failed_at, skipped) VALUES (?, ?, ?, CAST(? AS TEXT), julianday(?), ?)", b).await?;
                    ms.chunks[i] = if real { MChunk::Failed { text } } else { MChunk::Skipped };
                }
            }
            ms.state = match s.end {
                End::InProgress => MState::InProgress,
                End::Completed => MState::Completed,
                End::Failed => MState::Failed(first_bad.unwrap() as u64),
                End::Cancelled => MState::Cancelled,
            };
            old_times.insert(id, now - chrono::Duration::seconds(s.age_s as i64));
            models.insert(id, ms);
        }
        for n in 0..case.newer {
            exec(&mut c, &format!("CREATE TABLE future{n} (a INTEGER)"), vec![]).await?;
            exec(&mut c, &format!("INSERT INTO future{n} VALUES (7)"), vec![]).await?;
            exec(&mut c, &format!("ALTER TABLE submissions_completed ADD COLUMN future{n} TEXT DEFAULT 'x'"), vec![]).await?;
            exec(&mut c, &format!("INSERT INTO _sqlx_migrations (version, description, success, checksum, execution_time) VALUES ({}, 'future', 1, x'00', 1)", 29990101000000i64 + n as i64), vec![]).await?;
        }
        c.close().await.map_err(infra_err)?;
    }
    let before = if case.level > 0 { Some((dump(&file).await?, schema(&file).await?)) } else { None };
    // The code under test opens it. (A panic here is one of "DB migrations failed".)
    let f2 = file.clone();
    let opened = std::thread::spawn(move || rt_multi(2).block_on(async move { drop(opsqueue::db::open_and_setup(&f2, std::num::NonZero::new(16).unwrap()).await) })).join();
    info.evals += 1;
    if opened.is_err() {
        return fail_p_sound(P, "an old database cannot be opened", format!("level {} of {}", case.level, golden().len()));
    }
    let (d1, s1) = (dump(&file).await?, schema(&file).await?);
    // the same as a database made from scratch
    if case.newer == 0 {
        let fresh = schema(&template_db().display().to_string()).await?;
        info.evals += 1;
        if s1 != fresh {
            let a: Vec<_> = s1.iter().filter(|x| !fresh.contains(x)).collect();
            let b: Vec<_> = fresh.iter().filter(|x| !s1.contains(x)).collect();
            return fail_p_sound(P, "an upgraded database is not of the current form", format!("level {}: {a:?} instead of {b:?}", case.level));
        }
    }
    if let Some((d0, s0)) = &before {
        // (the golden scripts may be behind the current ones, so only compare where they add nothing)
        if case.level == golden().len() && *s0 == s1 {
            info.evals += 1;
            if *d0 != d1 {
                return fail_p_sound(P, "opening a current or newer database changed it", format!("{:?} became {:?}", d0.iter().filter(|x| !d1.contains(x)).take(3).collect::<Vec<_>>(), d1.iter().filter(|x| !d0.contains(x)).take(3).collect::<Vec<_>>()));
            }
        }
        if case.newer > 0 && *s0 != s1 {
            return fail_p_sound(P, "opening a newer database changed its form", format!("{:?}", s1.iter().filter(|x| !s0.contains(x)).collect::<Vec<_>>()));
        }
    }
    // opening it again changes nothing
    let srv = Server::start(&file, &SrvCfg { max_retries: 50, ..Default::default() }).await?;
    let web = srv.http();
    info.evals += 1;
    let d2 = dump(&file).await?;
    if d2 != d1 {
        return fail_p_sound(P, "opening an upgraded database again changed it", format!("{:?}", d2.iter().filter(|x| !d1.contains(x)).take(3).collect::<Vec<_>>()));
    }
    // everything is reported as it was
    for (id, m) in &mut models {
        let mut st = match web.get(&format!("/producer/submissions/{id}")).await? {
            (200, v) => v,
            (c, v) => return fail_p_sound(P, "the status of an old submission cannot be read", format!("level {}: {c} {v}", case.level)),
        };
        info.evals += 1;
        // what that version did not record
        let body = match m.state {
            MState::Failed(_) => &mut st["Failed"][0],
            MState::InProgress => &mut st["InProgress"],
            MState::Completed => &mut st["Completed"],
            MState::Cancelled => &mut st["Cancelled"],
        };
        if body.is_object() {
            if case.level < 7 && m.state != MState::Cancelled {
                body["chunk_size"] = json!(1);
            }
            if case.level < 10 && matches!(m.state, MState::Failed(_)) {
                if !body["chunks_done"].is_null() && body["chunks_done"] != json!(m.done()) {
                    return fail_p_sound(P, "a wrong progress is reported for an old submission", format!("{body}"));
                }
                body["chunks_done"] = json!(m.done());
            }
            if m.state != MState::Cancelled {
                let want = &case.subs[models_index(case, *id, now)].trace;
                if body["otel_trace_carrier"] != json!(want) {
                    return fail_p_sound(P, "the trace context of an old submission is lost", format!("level {}: {}", case.level, body["otel_trace_carrier"]));
                }
            }
            for f in ["completed_at", "failed_at", "cancelled_at"] {
                if let Some(t) = body[f].as_str().and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()) {
                    if (t.to_utc() - old_times[id]).num_milliseconds().abs() > 5 {
                        return fail_p_sound(P, "the time of ending of an old submission is changed", format!("{t} instead of {}", old_times[id]));
                    }
                }
            }
        }
        if let Err((_, sig, msg)) = m.check_status(&st) {
            return fail_p_sound(P, format!("upgraded: {sig}"), format!("level {}: {msg}", case.level));
        }
        if let Some(p) = m.spec.prefix().filter(|p| !p.is_empty() && p != "." && p != "..") {
            let r = web.prefix(&p).await?;
            let same: Vec<Value> = case.subs.iter().enumerate().filter(|(_, s)| s.spec.prefix().as_ref() == Some(&p)).map(|(n, _)| json!(sub_id(n, now))).collect();
            if r.0 != 200 || !same.contains(&r.1) {
                return fail_p_sound(P, "an old submission is not found by its prefix", format!("level {}: {p:?}: {r:?}", case.level));
            }
        }
    }
    // so are the results and the lookups by metadata
    let mut c = srv.reader().await?;
    let rows = sqlx::query("SELECT submission_id, chunk_index, output_content FROM chunks_completed").fetch_all(&mut c).await.map_err(infra_err)?;
    let got: BTreeMap<(u64, u64), Option<Vec<u8>>> = rows.iter().map(|r| ((r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64), r.get(2))).collect();
    let _ = c.close().await;
    info.evals += 1;
    if got != outputs {
        return fail_p_sound(P, "results of old submissions are lost or changed", format!("level {}: {got:?} instead of {outputs:?}", case.level));
    }
    for s in models.values().filter(|m| !m.spec.strategic.is_empty()) {
        for (k, v) in &s.spec.strategic {
            let want: Vec<u64> = models.values().filter(|m| m.state == MState::InProgress && m.spec.strategic.get(k) == Some(v)).map(|m| m.id).collect();
            let r = web.meta(&json!({ k.clone(): v })).await?;
            info.evals += 1;
            if r != (200, json!(want)) {
                return fail_p_sound(P, "old submissions are not found by their metadata", format!("level {}: {k:?} {v}: {r:?} instead of {want:?}", case.level));
            }
        }
    }
    // new work is accepted along with the old
    let spec = SubSpec { contents: Contents::Direct(vec![Some(vec![1]), None]), metadata: None, strategic: BTreeMap::from([("company_id".to_string(), 1)]), chunk_size: Some(3) };
    let id = match web.post("/producer/submissions", &spec.to_json()).await? {
        (200, v) if v.is_u64() => v.as_u64().unwrap(),
        (c, v) => return fail_p_sound(P, "an upgraded database accepts no new work", format!("level {}: {c} {v}", case.level)),
    };
    models.insert(id, MSub::new(id, spec, 0));
    // and all of it can be worked on
    let mut worker = Raw::connect(srv.port, Arc::new(tokio::sync::Notify::new())).await?;
    let mut left: usize = models.values().filter(|m| m.state == MState::InProgress).map(|m| m.chunks.iter().filter(|c| matches!(c, MChunk::Pending { .. })).count()).sum();
    let (old_pending, ended) = (left - 2, models.values().filter(|m| m.state != MState::InProgress).count());
    let mut n = 0u64;
    while left > 0 {
        n += 1;
        worker.reserve(4, &[json!("Random"), json!("Oldest"), json!("Newest"), json!({"PreferDistinct": {"meta_key": "company_id", "underlying": "Random"}})][(n % 4) as usize]).await;
        let got = worker.recv(Duration::from_secs(20)).await.map(|g| parse(&g.msg));
        let Some(Parsed::Reserved { chunks, .. }) = got else {
            return fail_p(P, "old chunks are not handed out", format!("level {}, {left} left: {got:?}", case.level));
        };
        for ch in chunks {
            let Some(m) = models.get_mut(&ch.sub) else { return fail_p_sound(P, "an unknown chunk is handed out", format!("{ch:?}")) };
            if !m.is_pending(ch.idx) {
                return fail_p_sound(P, "a chunk is handed out that is not to be done", format!("level {}: {ch:?}", case.level));
            }
            info.evals += 1;
            for (f, g, w) in [
                ("input_content", &ch.chunk["input_content"], json!(m.spec.chunk_contents()[ch.idx as usize])),
                ("retries", &ch.chunk["retries"], json!(m.retries(ch.idx))),
                ("prefix", &ch.submission["prefix"], json!(m.spec.prefix())),
                ("metadata", &ch.submission["metadata"], json!(m.spec.metadata)),
                ("strategic_metadata", &ch.submission["strategic_metadata"], json!(m.spec.strategic)),
            ] {
                if *g != w {
                    return fail_p_sound(P, format!("an old chunk is handed out with a wrong {f}"), format!("level {}: {g} instead of {w}", case.level));
                }
            }
            worker.complete((ch.sub, ch.idx), &None).await;
            m.complete(ch.idx, None, 1);
            left -= 1;
        }
    }
    let end = tokio::time::Instant::now() + Duration::from_secs(20);
    for id in models.iter().filter(|(_, m)| m.state == MState::Completed).map(|(id, _)| *id).collect::<Vec<_>>() {
        loop {
            let st = web.status(id).await?;
            if st.get("Completed").is_some() {
                break;
            }
            if tokio::time::Instant::now() > end {
                return fail_p(P, "an old submission does not complete", format!("level {}: {st}", case.level));
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    srv.stop().await;
    info.tag(format!("level-{}{}", case.level, if case.newer > 0 { "+newer" } else { "" }));
    info.nontrivial = old_pending > 0 && ended > 0;
    Ok(info)
}
fn sub_id(n: usize, now: chrono::DateTime<chrono::Utc>) -> u64 {
    (((now.timestamp_millis() - 600_000) as u64 + n as u64 * 7) << 22) | (n as u64 % 3)
}
fn models_index(case: &UpgradeCase, id: u64, now: chrono::DateTime<chrono::Utc>) -> usize {
    (0..case.subs.len()).find(|n| sub_id(*n, now) == id).expect("id")
}
