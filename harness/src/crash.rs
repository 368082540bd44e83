//! P10: stopping at any point.
//! `CrashPoints` takes a history of a whole server, cuts its write-ahead log off after every
//! commit, and requires each such state to be one between two operations.
//! `Kills` kills the real server program at generated moments while many peers use it.
use crate::engine::*;
use crate::hist::*;
use crate::model::*;
use crate::real::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sqlx::{Connection, Row};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::Notify;

pub struct CrashPoints(pub SProfile);
impl Prop for CrashPoints {
    type Case = SCase;
    fn name(&self) -> &'static str {
        self.0.name
    }
    fn rule(&self) -> &'static str {
        self.0.rule
    }
    fn threads(&self) -> usize {
        12
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> SCase {
        gen_scase(&self.0, rng)
    }
    fn shrink(&self, case: &SCase) -> Vec<SCase> {
        shrink_vec(&case.ops).into_iter().map(|ops| SCase { ops, ..case.clone() }).collect()
    }
    fn run(&self, case: &SCase, mode: Mode) -> RunResult {
        let dir = Scratch::new();
        let rt = rt();
        let r = rt.block_on(async {
            let mut rec = Record::default();
            let (tags, evals) = run_scase(case, mode, &dir, Some(&mut rec)).await?;
            let mut info = CaseInfo { nontrivial: (self.0.nontrivial)(&tags), evals, tags };
            crash_points(case, &dir, &rec, &mut info).await?;
            Ok(info)
        });
        rt.shutdown_background();
        r
    }
}

/// End offsets of the commits in a write-ahead log
fn commits(wal: &[u8]) -> Vec<usize> {
    let be = |o: usize| u32::from_be_bytes(wal[o..o + 4].try_into().unwrap());
    if wal.len() < 32 {
        return vec![];
    }
    let page = be(8) as usize;
    let salt = &wal[16..24];
    let mut out = vec![32];
    let mut o = 32;
    while o + 24 + page <= wal.len() && wal[o + 8..o + 16] == *salt {
        let commit = be(o + 4) != 0;
        o += 24 + page;
        if commit {
            out.push(o);
        }
    }
    out
}

async fn crash_points(case: &SCase, dir: &Scratch, rec: &Record, info: &mut CaseInfo) -> Result<(), RunError> {
    const P: &[&str] = &["P10"];
    let file = dir.file("crash.db");
    let put = |main: &[u8], wal: &[u8]| {
        for ext in ["", "-wal", "-shm"] {
            let _ = std::fs::remove_file(format!("{file}{ext}"));
        }
        std::fs::write(&file, main).map_err(infra_err)?;
        std::fs::write(format!("{file}-wal"), wal).map_err(infra_err)
    };
    let mut rng = Rng::new(rec.steps.len() as u64 + case.ops.len() as u64 * 977);
    let chosen = rng.usize(rec.steps.len().max(1));
    for (n, s) in rec.steps.iter().enumerate() {
        heartbeat();
        let (old, new) = (commits(&s.wal.0), commits(&s.wal.1));
        // the log goes on, or has been started anew (the file had everything before that)
        let goes_on = s.wal.0.len() >= 32 && s.wal.1.len() >= 32 && s.wal.0[..32] == s.wal.1[..32];
        let points: Vec<usize> = if goes_on { new.into_iter().filter(|p| *p >= *old.last().unwrap()).collect() } else { new };
        let Some(last) = points.last() else { continue };
        put(&s.main, &s.wal.1[..*last])?;
        if dump(&file).await? != s.dump.1 {
            info.tag("crash-points-not-known");
            continue;
        }
        for cut in &points {
            put(&s.main, &s.wal.1[..*cut])?;
            let d = dump(&file).await?;
            info.evals += 1;
            let which = [&s.dump.0, &s.dump.1].iter().position(|x| **x == d);
            if which.is_none() {
                let new: Vec<_> = d.iter().filter(|x| !s.dump.0.contains(x)).take(4).collect();
                let gone: Vec<_> = s.dump.0.iter().filter(|x| !d.contains(x)).take(4).collect();
                let missing: Vec<_> = s.dump.1.iter().filter(|x| !d.contains(x)).take(4).collect();
                return fail_p_sound(P, "a crash leaves half an operation", format!("during {:?}: so far new {new:?}, gone {gone:?}; to come {missing:?}", case.ops.get(s.op)));
            }
        }
        // in the middle of a write, too
        if let Some(cut) = points.iter().copied().find(|c| *c + 60 < s.wal.1.len()) {
            put(&s.main, &s.wal.1[..cut + 60])?;
            let d = dump(&file).await?;
            info.evals += 1;
            if d != s.dump.0 && d != s.dump.1 {
                return fail_p_sound(P, "a crash leaves half an operation", format!("in the middle of a write during {:?}", case.ops.get(s.op)));
            }
        }
        info.tag_n("crash-points", points.len() as u64);
        if n == chosen {
            let cut = *rng.pick(&points);
            put(&s.main, &s.wal.1[..cut])?;
            let srv = Server::start(&file, &SrvCfg { max_retries: case.max_retries, ..Default::default() }).await?;
            work_off(&file, srv.port, info).await?;
            srv.stop().await;
        }
    }
    Ok(())
}

/// Complete everything that is there and require that nothing is left over.
pub async fn work_off(file: &str, port: u16, info: &mut CaseInfo) -> Result<(), RunError> {
    const P: &[&str] = &["P10"];
    let web = Http::new(port);
    let mut db = open_reader(file).await?;
    let mut left: BTreeSet<(u64, u64)> = sqlx::query("SELECT submission_id, chunk_index FROM chunks").fetch_all(&mut db).await.map_err(infra_err)?.iter().map(|r| (r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64)).collect();
    let subs: Vec<u64> = sqlx::query("SELECT id FROM submissions").fetch_all(&mut db).await.map_err(infra_err)?.iter().map(|r| r.get::<i64, _>(0) as u64).collect();
    let mut worker = Raw::connect(port, Arc::new(Notify::new())).await?;
    let mut n = 0;
    while !left.is_empty() {
        worker.reserve(7, &[json!("Random"), json!("Oldest"), json!({"PreferDistinct": {"meta_key": "a", "underlying": "Newest"}})][n % 3]).await;
        n += 1;
        let got = worker.recv(Duration::from_secs(20)).await.map(|g| parse(&g.msg));
        let Some(Parsed::Reserved { chunks, .. }) = got else {
            return fail_p(P, "after a crash, chunks are not handed out", format!("{left:?}: {got:?}"));
        };
        for c in chunks {
            info.evals += 1;
            if !left.remove(&(c.sub, c.idx)) {
                return fail_p_sound(P, "after a crash, a chunk is handed out that is not to be done", format!("{c:?}"));
            }
            worker.complete((c.sub, c.idx), &Some(vec![9])).await;
        }
    }
    for id in subs {
        let end = tokio::time::Instant::now() + Duration::from_secs(20);
        loop {
            let st = web.status(id).await?;
            if st.get("Completed").is_some() {
                break;
            }
            if st.get("InProgress").is_none() || tokio::time::Instant::now() > end {
                return fail_p(P, "after a crash, a submission does not complete", format!("{st}"));
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }
    worker.close().await;
    let left: i64 = sqlx::query_scalar("SELECT (SELECT count(*) FROM chunks) + (SELECT count(*) FROM submissions)").fetch_one(&mut db).await.map_err(infra_err)?;
    let _ = db.close().await;
    if left != 0 {
        return fail_p_sound(P, "after a crash, something is left over", format!("{left} rows"));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KillCase {
    pub seed: u64,
    pub max_retries: u32,
    /// when the server is killed, in microseconds after it started to serve; and whether it is
    /// asked to stop instead
    pub kills: Vec<(u64, bool)>,
    pub producers: u64,
    pub consumers: u64,
    pub cancels: u64,
    pub big: bool,
}
pub struct Kills;
impl Prop for Kills {
    type Case = KillCase;
    fn name(&self) -> &'static str {
        "kills"
    }
    fn rule(&self) -> &'static str {
        "the server was killed while operations were going on, at least one of which had not been acknowledged"
    }
    fn threads(&self) -> usize {
        6
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> KillCase {
        KillCase {
            seed: rng.u64(),
            max_retries: *rng.pick(&[1, 2, 3, 5]),
            kills: (0..rng.range(1, 4)).map(|_| (*rng.pick(&[2_000u64, 10_000, 30_000, 80_000, 200_000]) + rng.below(20_000), rng.chance(1, 6))).collect(),
            producers: rng.range(1, 3),
            consumers: rng.range(1, 3),
            cancels: rng.below(3),
            big: rng.chance(1, 4),
        }
    }
    fn shrink(&self, c: &KillCase) -> Vec<KillCase> {
        shrink_vec(&c.kills).into_iter().filter(|k| !k.is_empty()).map(|kills| KillCase { kills, ..c.clone() }).collect()
    }
    fn run(&self, case: &KillCase, _: Mode) -> RunResult {
        let rt = rt_multi(2);
        let r = rt.block_on(run_kills(case));
        rt.shutdown_background();
        r
    }
}

#[derive(Default)]
struct Known {
    /// acknowledged submissions
    subs: BTreeMap<u64, SubSpec>,
    /// not acknowledged, by their metadata
    unsure: BTreeMap<Vec<u8>, SubSpec>,
    /// what was seen: progress and end
    view: HashMap<u64, (u64, Option<Value>)>,
    outputs: HashMap<(u64, u64), Vec<Option<Vec<u8>>>>,
    texts: HashMap<(u64, u64), Vec<String>>,
    cancelled: BTreeSet<u64>,
}

async fn run_kills(case: &KillCase) -> RunResult {
    const P: &[&str] = &["P10"];
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let known = Arc::new(Mutex::new(Known::default()));
    let mut unsure_total = 0;
    let max = case.max_retries.to_string();
    for (round, (us, polite)) in case.kills.iter().enumerate() {
        heartbeat();
        let mut srv = Real::start(&file, &["--max-chunk-retries", &max], &[]).await?;
        let port = srv.port;
        let stop = Arc::new(AtomicBool::new(false));
        let mut tasks = vec![];
        for n in 0..case.producers {
            let (known, stop, seed, big) = (known.clone(), stop.clone(), case.seed ^ (round as u64 * 97 + n), case.big);
            tasks.push(tokio::spawn(async move {
                let mut rng = Rng::new(seed);
                let web = Http::new(port);
                let g = SpecGen { max_chunks: 6, zero: 1, edgy: false, stored: 2, bulk: if big { 4 } else { 0 }, keys: vec!["a".into(), "b".into()], vals: vec![1, 2], ..Default::default() };
                while !stop.load(Ordering::SeqCst) {
                    let mut spec = g.spec(&mut rng);
                    let tag = format!("{}-{}", seed, rng.u64()).into_bytes();
                    spec.metadata = Some(tag.clone());
                    known.lock().unwrap().unsure.insert(tag.clone(), spec.clone());
                    match web.post("/producer/submissions", &spec.to_json()).await {
                        Ok((200, v)) if v.is_u64() => {
                            let mut k = known.lock().unwrap();
                            k.unsure.remove(&tag);
                            k.subs.insert(v.as_u64().unwrap(), spec);
                        }
                        // it was killed in the middle of this
                        _ => break,
                    }
                    tokio::time::sleep(Duration::from_micros(rng.below(3000))).await;
                }
            }));
        }
        for n in 0..case.consumers {
            let (known, stop, seed) = (known.clone(), stop.clone(), case.seed ^ (round as u64 * 131 + n + 1000));
            tasks.push(tokio::spawn(async move {
                let mut rng = Rng::new(seed);
                let Ok(mut raw) = Raw::connect(port, Arc::new(Notify::new())).await else { return };
                while !stop.load(Ordering::SeqCst) && !raw.closed() {
                    raw.reserve(rng.range(1, 5), &json!("Random")).await;
                    let Some(g) = raw.recv(Duration::from_millis(50)).await else { continue };
                    if let Parsed::Reserved { chunks, .. } = parse(&g.msg) {
                        for c in chunks {
                            let k = (c.sub, c.idx);
                            if rng.chance(1, 4) {
                                let t = format!("t{}", rng.below(1000));
                                known.lock().unwrap().texts.entry(k).or_default().push(t.clone());
                                raw.fail(k, &t).await;
                            } else {
                                let o = Some(rng.bytes(5));
                                known.lock().unwrap().outputs.entry(k).or_default().push(o.clone());
                                raw.complete(k, &o).await;
                            }
                        }
                    }
                }
            }));
        }
        for n in 0..=case.cancels {
            let (known, stop, seed) = (known.clone(), stop.clone(), case.seed ^ (round as u64 * 151 + n + 5000));
            tasks.push(tokio::spawn(async move {
                let mut rng = Rng::new(seed);
                let web = Http::new(port);
                while !stop.load(Ordering::SeqCst) {
                    let ids: Vec<u64> = known.lock().unwrap().subs.keys().copied().collect();
                    if !ids.is_empty() {
                        let id = *rng.pick(&ids);
                        if n > 0 && rng.chance(1, 8) {
                            if let Ok((200, _)) = web.cancel(id).await {
                                known.lock().unwrap().cancelled.insert(id);
                            }
                        } else if let Ok((200, st)) = web.get(&format!("/producer/submissions/{id}")).await {
                            let name = st.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
                            let done = if name == "Completed" { st[&name]["chunks_total"].as_u64() } else { st[&name]["chunks_done"].as_u64().or(st[&name][0]["chunks_done"].as_u64()) }.unwrap_or(0);
                            let mut k = known.lock().unwrap();
                            let v = k.view.entry(id).or_insert((0, None));
                            v.0 = v.0.max(done);
                            if name != "InProgress" && !name.is_empty() {
                                v.1 = Some(st);
                            }
                        }
                    }
                    tokio::time::sleep(Duration::from_micros(rng.below(2000))).await;
                }
            }));
        }
        tokio::time::sleep(Duration::from_micros(*us)).await;
        if *polite {
            info.tag("asked-to-stop");
            if !srv.interrupt(Duration::from_secs(20)).await {
                info.tag("did-not-stop-when-asked");
            }
            srv.kill();
        } else {
            if let Some(e) = srv.exited() {
                return fail_p(&["P10", "P19", "P26"], "the server ended by itself", format!("{e}: {}", srv.tail()));
            }
            srv.kill();
        }
        stop.store(true, Ordering::SeqCst);
        for t in tasks {
            let _ = tokio::time::timeout(Duration::from_secs(40), t).await;
        }
        // What is in the file now?
        verify(&file, &known, case, &mut info).await?;
        unsure_total += known.lock().unwrap().unsure.len();
        known.lock().unwrap().unsure.clear();
    }
    let srv = Real::start(&file, &["--max-chunk-retries", &max], &[]).await?;
    // the restarted server says the same as before, and carries on
    let web = srv.http();
    let (view, cancelled, subs) = {
        let k = known.lock().unwrap();
        (k.view.clone(), k.cancelled.clone(), k.subs.clone())
    };
    for (id, spec) in &subs {
        info.evals += 1;
        let st = web.status(*id).await?;
        if st.is_null() {
            return fail_p_sound(P, "an acknowledged submission is gone after a crash", format!("{id}"));
        }
        if let Some((done, end)) = view.get(id) {
            let name = st.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
            let d = if name == "Completed" { st[&name]["chunks_total"].as_u64() } else { st[&name]["chunks_done"].as_u64().or(st[&name][0]["chunks_done"].as_u64()) }.unwrap_or(0);
            if d < *done || end.as_ref().is_some_and(|e| *e != st) {
                return fail_p_sound(P, "what was reported before a crash is not so afterwards", format!("{id}: {st}, before {done}, {end:?}"));
            }
        }
        if cancelled.contains(id) && st.get("Cancelled").is_none() {
            return fail_p_sound(P, "a cancellation is forgotten after a crash", format!("{id}: {st}"));
        }
        let main = st.as_object().and_then(|o| o.values().next()).map(|v| if v.is_array() { v[0].clone() } else { v.clone() }).unwrap_or_default();
        for (f, w) in [("chunks_total", json!(spec.len())), ("prefix", json!(spec.prefix())), ("metadata", json!(spec.metadata)), ("strategic_metadata", json!(spec.strategic))] {
            if main[f] != w {
                return fail_p_sound(P, "an acknowledged submission is different after a crash", format!("{id}: {f} is {}, required {w}", main[f]));
            }
        }
    }
    work_off(&file, srv.port, &mut info).await?;
    info.tag_n("submissions", subs.len() as u64);
    info.tag_n("unacknowledged", unsure_total as u64);
    info.nontrivial = unsure_total > 0 && !subs.is_empty();
    Ok(info)
}

/// The stored state is consistent in itself and with everything that was reported.
async fn verify(file: &str, known: &Mutex<Known>, case: &KillCase, info: &mut CaseInfo) -> Result<(), RunError> {
    const P: &[&str] = &["P10"];
    // (a copy: looking at it recovers the log)
    let copy = format!("{file}.copy");
    for ext in ["", "-wal"] {
        let _ = std::fs::remove_file(format!("{copy}{ext}"));
        let _ = std::fs::copy(format!("{file}{ext}"), format!("{copy}{ext}"));
    }
    let _ = std::fs::remove_file(format!("{copy}-shm"));
    let mut db = open_reader(&copy).await?;
    let ok: String = sqlx::query_scalar("PRAGMA integrity_check").fetch_one(&mut db).await.map_err(infra_err)?;
    if ok != "ok" {
        return fail_p_sound(P, "the database is damaged after a crash", ok);
    }
    type Row4 = (u64, &'static str, i64, Option<i64>, Option<Vec<u8>>);
    let mut subs: Vec<Row4> = vec![];
    for (t, d) in [("submissions", "chunks_done"), ("submissions_completed", "NULL"), ("submissions_failed", "chunks_done"), ("submissions_cancelled", "chunks_done")] {
        for r in sqlx::query(sqlx::AssertSqlSafe(format!("SELECT id, chunks_total, {d}, metadata FROM {t}"))).fetch_all(&mut db).await.map_err(infra_err)? {
            subs.push((r.get::<i64, _>(0) as u64, t, r.get(1), r.get(2), r.get(3)));
        }
    }
    let mut rows: BTreeMap<u64, BTreeMap<u64, (&'static str, Option<Vec<u8>>)>> = BTreeMap::new();
    for (t, c) in [("chunks", "input_content"), ("chunks_completed", "output_content"), ("chunks_failed", "input_content")] {
        for r in sqlx::query(sqlx::AssertSqlSafe(format!("SELECT submission_id, chunk_index, {c} FROM {t}"))).fetch_all(&mut db).await.map_err(infra_err)? {
            let (s, i) = (r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64);
            if let Some(x) = rows.entry(s).or_default().insert(i, (t, r.get(2))) {
                return fail_p_sound(&["P10", "P01"], "a chunk is in two places after a crash", format!("{s} {i}: {t} and {}", x.0));
            }
        }
    }
    let failures: HashMap<(u64, u64), String> = sqlx::query("SELECT submission_id, chunk_index, CAST(failure AS TEXT) FROM chunks_failed WHERE NOT skipped").fetch_all(&mut db).await.map_err(infra_err)?.iter().map(|r| ((r.get::<i64, _>(0) as u64, r.get::<i64, _>(1) as u64), r.get(2))).collect();
    let meta: BTreeMap<u64, BTreeMap<String, i64>> = {
        let mut m: BTreeMap<u64, BTreeMap<String, i64>> = BTreeMap::new();
        for r in sqlx::query("SELECT submission_id, metadata_key, metadata_value FROM submissions_metadata").fetch_all(&mut db).await.map_err(infra_err)? {
            m.entry(r.get::<i64, _>(0) as u64).or_default().insert(r.get(1), r.get(2));
        }
        m
    };
    let _ = db.close().await;
    let mut k = known.lock().unwrap();
    let mut present = BTreeSet::new();
    for (id, table, total, done, tag) in subs {
        info.evals += 1;
        if !present.insert(id) {
            return fail_p_sound(&["P10", "P05"], "a submission is in two states after a crash", format!("{id}"));
        }
        let spec = match k.subs.get(&id).cloned() {
            Some(s) => s,
            None => match tag.as_ref().and_then(|t| k.unsure.remove(t)) {
                // it happened although it was not acknowledged: completely
                Some(s) => {
                    info.tag("unacknowledged-but-done");
                    k.subs.insert(id, s.clone());
                    s
                }
                None => return fail_p_sound(P, "a submission that nobody made exists after a crash", format!("{id}")),
            },
        };
        let contents = spec.chunk_contents();
        let mine = rows.remove(&id).unwrap_or_default();
        let n = contents.len();
        if total != n as i64 || mine.len() != n || mine.keys().copied().ne(0..n as u64) {
            return fail_p_sound(&["P10", "P01"], "a submission is incomplete after a crash", format!("{id} in {table}: total {total}, {} of {n} chunks", mine.len()));
        }
        if meta.get(&id).cloned().unwrap_or_default() != spec.strategic {
            return fail_p_sound(P, "a submission has lost its metadata in a crash", format!("{id}: {:?} instead of {:?}", meta.get(&id), spec.strategic));
        }
        let count = |t: &str| mine.values().filter(|c| c.0 == t).count();
        let (p, c, f) = (count("chunks"), count("chunks_completed"), count("chunks_failed"));
        let good = match table {
            "submissions" => done == Some(c as i64) && f == 0 && p > 0,
            "submissions_completed" => c == n,
            "submissions_failed" => done == Some(c as i64) && p == 0 && f > 0,
            _ => done == Some(c as i64) && p == 0 && f > 0,
        };
        if !good {
            return fail_p_sound(P, "a crash leaves half an operation", format!("{id} in {table}: progress {done:?} of {total}, {p} to be done, {c} completed, {f} failed"));
        }
        for (i, (t, b)) in &mine {
            let fine = match *t {
                "chunks_completed" => k.outputs.get(&(id, *i)).is_some_and(|v| v.contains(b)),
                _ => *b == contents[*i as usize],
            };
            if !fine {
                return fail_p_sound(&["P10", "P03"], "the content of a chunk is wrong after a crash", format!("{id} {i} in {t}: {b:?}"));
            }
        }
        if table == "submissions_failed" {
            let bad: Vec<_> = failures.iter().filter(|(x, _)| x.0 == id).collect();
            let fine = bad.len() == 1 && k.texts.get(bad[0].0).is_some_and(|v| v.contains(bad[0].1) && v.len() as u32 >= case.max_retries);
            if !fine {
                return fail_p_sound(&["P10", "P04"], "a submission has failed for no reported reason after a crash", format!("{id}: {bad:?}"));
            }
        }
    }
    if let Some((id, _)) = rows.into_iter().next() {
        return fail_p_sound(&["P10", "P01"], "chunks without a submission exist after a crash", format!("{id}"));
    }
    for id in k.subs.keys() {
        if !present.contains(id) {
            return fail_p_sound(P, "an acknowledged submission is gone after a crash", format!("{id}"));
        }
    }
    Ok(())
}
