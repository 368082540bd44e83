//! Queues with so many chunks or submissions that something that happens to one in tens of
//! thousands happens in nearly every case, and submissions whose progress is followed step by step.
use crate::dbm::{cid, open_single, sid};
use crate::engine::*;
use crate::hist::Strat;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use opsqueue::common::chunk;
use opsqueue::common::submission::{self, SubmissionId, SubmissionStatus};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WideCase {
    pub submissions: u64,
    pub chunks: u64,
    pub requests: u64,
    pub strat: Strat,
}
/// Takes everything there is, again and again: every time every chunk is there exactly once
pub struct WideQueue;

impl Prop for WideQueue {
    type Case = WideCase;
    fn name(&self) -> &'static str {
        "wide"
    }
    fn rule(&self) -> &'static str {
        "more than 65536 chunks, or chunks of submissions, were handed out"
    }
    fn threads(&self) -> usize {
        2
    }
    fn generate(&self, rng: &mut Rng, i: u64, _: Tier) -> WideCase {
        let many = |s| Strat::Prefer("k".into(), Box::new(s));
        match i % 4 {
            0 => WideCase { submissions: 12, chunks: rng.range(3500, 4500), requests: 6, strat: Strat::Random },
            1 => WideCase { submissions: 2500, chunks: 1, requests: 60, strat: many(Strat::Random) },
            2 => WideCase { submissions: 12, chunks: rng.range(1500, 2500), requests: 2, strat: rng.pick(&[Strat::Oldest, Strat::Newest, many(Strat::Oldest), many(Strat::Random)]).clone() },
            _ => WideCase { submissions: 300, chunks: rng.range(1, 5), requests: 80, strat: rng.pick(&[Strat::Random, many(Strat::Random)]).clone() },
        }
    }
    fn shrink(&self, c: &WideCase) -> Vec<WideCase> {
        let mut out = vec![];
        for (s, k) in [(c.submissions / 2, c.chunks), (c.submissions, c.chunks / 2)] {
            if s > 0 && k > 0 {
                out.push(WideCase { submissions: s, chunks: k, ..c.clone() });
            }
        }
        out
    }
    fn run(&self, case: &WideCase, mode: Mode) -> RunResult {
        rt_multi(2).block_on(wide(case, mode))
    }
}

async fn wide(case: &WideCase, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let srv = Server::start(&fresh_db(dir.path()), &SrvCfg::default()).await?;
    let http = srv.http();
    let body = json!({"chunk_contents": {"Direct": {"contents": vec![serde_json::Value::Null; case.chunks as usize]}}, "metadata": null, "strategic_metadata": {"k": 1}, "chunk_size": 1});
    let mut all = BTreeSet::new();
    for _ in 0..case.submissions {
        let id = http.submit(&body).await?;
        all.extend((0..case.chunks).map(|i| (id, i)));
    }
    let n = all.len();
    let avail: BTreeMap<u64, usize> = all.iter().fold(BTreeMap::new(), |mut m, k| {
        *m.entry(k.0).or_default() += 1;
        m
    });
    for r in 0..case.requests {
        let mut c = Raw::connect(srv.port, Arc::default()).await?;
        c.reserve(10 * n as u64, &case.strat.json()).await;
        let Some(got) = c.recv(Duration::from_secs(60)).await else {
            return fail_p(&["P11", "P09", "P26"], "a request for everything is not answered", format!("{n} chunks, request {r}"));
        };
        let Parsed::Reserved { chunks, .. } = parse(&got.msg) else {
            return fail_p(&["P11", "P09", "P26"], "a request for everything is not answered", format!("{n} chunks, request {r}: {:.300}", got.msg.to_string()));
        };
        info.evals += chunks.len() as u64;
        let have: BTreeSet<_> = chunks.iter().map(|g| (g.sub, g.idx)).collect();
        if have.len() != chunks.len() {
            return fail_p(&["P11", "P07"], "a chunk is handed out twice in one answer", format!("{} chunks, {} different", chunks.len(), have.len()));
        }
        if have != all {
            return fail_p(&["P11", "P26"], "an available chunk is withheld from a request for everything", format!("request {r} of {}: {} of {n} chunks, missing {:?}", case.strat.kind(), have.len(), all.difference(&have).take(3).collect::<Vec<_>>()));
        }
        if r == 0 {
            let order: Vec<u64> = chunks.iter().map(|g| g.sub).collect();
            if let Err(e) = case.strat.check(&order, &avail, usize::MAX, &|_, _| 0) {
                return fail_p(&["P11"], "a large queue is handed out in another order than promised", format!("{:.600}", e));
            }
        }
        c.close().await;
        // until all of it was given back
        tokio::time::sleep(Duration::from_millis(if mode.slow { 400 + n as u64 / 20 } else { 30 + n as u64 / 100 })).await;
    }
    srv.stop().await;
    info.nontrivial = n as u64 * case.requests > 65_536;
    info.tag(&format!("strategy:{}", case.strat.kind()));
    Ok(info)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    pub sizes: Vec<u64>,
    pub limit: u32,
    pub seed: u64,
    /// of a thousand steps, how many fail a chunk
    pub fails: u64,
}
/// Follows several submissions of tens or hundreds of chunks to their end, step by step
pub struct LongProgress;

impl Prop for LongProgress {
    type Case = LongCase;
    fn name(&self) -> &'static str {
        "long-progress"
    }
    fn rule(&self) -> &'static str {
        "a submission of more than ten chunks was completed"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> LongCase {
        let n = rng.range(1, 4);
        let sizes = (0..n)
            .map(|_| match rng.below(6) {
                0 => rng.range(1, 5),
                1 | 2 => rng.range(6, 20),
                3 => rng.range(20, 70),
                4 => *rng.pick(&[63, 64, 65, 99, 100, 101, 127, 128, 129]),
                _ => *rng.pick(&[200, 255, 256, 257, 300]),
            })
            .collect();
        LongCase { sizes, limit: rng.range(1, 12) as u32, seed: rng.u64(), fails: *rng.pick(&[0, 0, 5, 30]) }
    }
    fn shrink(&self, c: &LongCase) -> Vec<LongCase> {
        let mut out = vec![];
        for i in 0..c.sizes.len() {
            if c.sizes.len() > 1 {
                let mut d = c.clone();
                d.sizes.remove(i);
                out.push(d);
            }
            for s in [c.sizes[i] / 2, c.sizes[i] - 1] {
                if s > 0 {
                    let mut d = c.clone();
                    d.sizes[i] = s;
                    out.push(d);
                }
            }
        }
        if c.fails > 0 {
            out.push(LongCase { fails: 0, ..c.clone() });
        }
        out
    }
    fn run(&self, case: &LongCase, _: Mode) -> RunResult {
        rt().block_on(long(case))
    }
}

struct Follow {
    id: u64,
    open: Vec<u64>,
    total: u64,
    tries: BTreeMap<u64, u32>,
    over: bool,
}

async fn long(case: &LongCase) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let db = open_single(&fresh_db(dir.path())).await?;
    let mut conn = db.w.writer_conn().await.map_err(infra_err)?;
    let mut rng = Rng::new(case.seed);
    let mut subs = vec![];
    for &n in &case.sizes {
        let id = submission::db::insert_submission_from_chunks(None, (0..n).map(|i| Some(vec![i as u8])).collect(), None, Default::default(), Default::default(), &mut conn).await;
        let id = u64::from(id.map_err(infra_err)?);
        subs.push(Follow { id, open: (0..n).collect(), total: n, tries: BTreeMap::new(), over: n == 0 });
    }
    while subs.iter().any(|s| !s.over) {
        let live: Vec<usize> = (0..subs.len()).filter(|i| !subs[*i].over).collect();
        let s = &mut subs[*rng.pick(&live)];
        let at = rng.usize(s.open.len());
        let idx = s.open[at];
        let n = s.total;
        info.evals += 1;
        if rng.chance(case.fails, 1000) {
            let t = s.tries.entry(idx).or_default();
            *t += 1;
            let last = *t >= case.limit;
            match chunk::db::retry_or_fail_chunk(cid(s.id, idx), "no".into(), &mut conn, case.limit).await {
                Ok(p) if p == last => {}
                o => return fail_p(&["P04"], "a chunk of a long submission fails too early or too late", format!("attempt {t} of {}: {o:?}", case.limit)),
            }
            s.over = last;
            if last {
                match submission::db::submission_status(sid(s.id), &mut conn).await {
                    Ok(Some(SubmissionStatus::Failed(f, c))) if u64::from(f.failed_chunk_id) == idx && f.chunks_done.map(u64::from) == Some(n - s.open.len() as u64) && c.failure == "no" => {}
                    o => return fail_p(&["P04", "P01"], "a long submission is not failed as it has to be", format!("chunk {idx} of {n}: {o:?}")),
                }
                info.tag("failed");
            }
            continue;
        }
        if let Err(e) = chunk::db::complete_chunk(cid(s.id, idx), None, &mut conn).await {
            return fail_p(&["P02"], "completing a chunk of a long submission fails", format!("{} of {n} to do: {e:?}", s.open.len()));
        }
        s.open.swap_remove(at);
        let done = n - s.open.len() as u64;
        if rng.chance(1, 8) && chunk::db::complete_chunk(cid(s.id, idx), None, &mut conn).await.is_ok() {
            return fail_p(&["P02"], "completing a chunk again is accepted", format!("{done} of {n}"));
        }
        // the progress right after, and from time to time that of all the others
        match submission::db::submission_status(sid(s.id), &mut conn).await {
            Ok(Some(SubmissionStatus::InProgress(p))) if done < n && u64::from(p.chunks_done) == done && u64::from(p.chunks_total) == n => {}
            Ok(Some(SubmissionStatus::Completed(c))) if done == n && u64::from(c.chunks_total) == n => {
                s.over = true;
                info.tag("completed");
                if n > 10 {
                    info.nontrivial = true;
                }
            }
            o => return fail_p(&["P02", "P01"], "the progress of a long submission is not what it has to be", format!("{done} of {n} done: {o:?}")),
        }
        if rng.chance(1, 10) {
            let want: u64 = subs.iter().filter(|s| !s.over).map(|s| s.open.len() as u64).sum();
            let have = u64::from(chunk::db::count_chunks(&mut conn).await.map_err(infra_err)?);
            if have != want {
                return fail_p(&["P01"], "the number of chunks to be done is wrong", format!("{have}, required {want}"));
            }
        }
    }
    Ok(info)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FastCase {
    pub inserts: u64,
    pub chunks: u64,
}
/// Submissions made without a pause, so that several are made in the same millisecond
pub struct FastInserts;

impl Prop for FastInserts {
    type Case = FastCase;
    fn name(&self) -> &'static str {
        "fast-inserts"
    }
    fn rule(&self) -> &'static str {
        "two submissions were made in the same millisecond"
    }
    fn threads(&self) -> usize {
        2
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> FastCase {
        FastCase { inserts: rng.range(50, 400), chunks: rng.below(2) }
    }
    fn shrink(&self, c: &FastCase) -> Vec<FastCase> {
        if c.inserts > 2 { vec![FastCase { inserts: c.inserts / 2, ..c.clone() }] } else { vec![] }
    }
    fn run(&self, case: &FastCase, _: Mode) -> RunResult {
        rt().block_on(async {
            let mut info = CaseInfo::default();
            let dir = Scratch::new();
            let db = open_single(&fresh_db(dir.path())).await?;
            let mut conn = db.w.writer_conn().await.map_err(infra_err)?;
            let mut last: Option<SubmissionId> = None;
            for k in 0..case.inserts {
                let id = match submission::db::insert_submission_from_chunks(None, vec![None; case.chunks as usize], None, Default::default(), Default::default(), &mut conn).await {
                    Ok(id) => id,
                    Err(e) => return fail_p(&["P17", "P01"], "one of many submissions made quickly is refused", format!("submission {k}, after {last:?}: {e}")),
                };
                info.evals += 1;
                if let Some(l) = last {
                    if u64::from(id) <= u64::from(l) {
                        return fail_p(&["P17"], "a new submission has an id that is not larger than the last one", format!("{id:?} after {l:?}"));
                    }
                    if id.timestamp().timestamp_millis() == l.timestamp().timestamp_millis() {
                        info.nontrivial = true;
                    }
                }
                last = Some(id);
            }
            Ok(info)
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeldCase {
    pub submissions: u64,
    pub chunks: u64,
    /// how many a consumer asks for each time
    pub take: u64,
    /// in turn
    pub strats: Vec<Strat>,
}
/// Consumers take parts of a long queue and keep them, until there is nothing left
pub struct HeldQueue;

impl Prop for HeldQueue {
    type Case = HeldCase;
    fn name(&self) -> &'static str {
        "wide-held"
    }
    fn rule(&self) -> &'static str {
        "more than a thousand submissions were in progress, or more than ten thousand chunks were held, at a time"
    }
    fn threads(&self) -> usize {
        3
    }
    fn generate(&self, rng: &mut Rng, i: u64, _: Tier) -> HeldCase {
        let mut strats = vec![Strat::Oldest, Strat::Newest, Strat::Random];
        if i % 4 != 0 {
            strats.extend(["k", "none"].iter().flat_map(|k| [Strat::Oldest, Strat::Newest, Strat::Random].map(|s| Strat::Prefer(k.to_string(), Box::new(s)))));
            strats.push(Strat::Prefer("k".into(), Box::new(Strat::Prefer("none".into(), Box::new(Strat::Oldest)))));
        }
        rng.shuffle(&mut strats);
        match i % 4 {
            0 => HeldCase { submissions: rng.range(1, 5), chunks: rng.range(11_000, 13_000), take: rng.range(2000, 6000), strats },
            1 => HeldCase { submissions: rng.range(1200, 2500), chunks: 1, take: rng.range(25, 60), strats },
            2 => HeldCase { submissions: rng.range(100, 300), chunks: rng.range(1, 20), take: rng.range(50, 200), strats },
            _ => HeldCase { submissions: rng.range(1, 60), chunks: rng.range(20, 130), take: rng.range(20, 300), strats },
        }
    }
    fn shrink(&self, c: &HeldCase) -> Vec<HeldCase> {
        let mut out = vec![];
        for (s, k) in [(c.submissions / 2, c.chunks), (c.submissions, c.chunks / 2)] {
            if s > 0 && k > 0 {
                out.push(HeldCase { submissions: s, chunks: k, ..c.clone() });
            }
        }
        out
    }
    fn run(&self, case: &HeldCase, mode: Mode) -> RunResult {
        rt_multi(2).block_on(held(case, mode))
    }
}

async fn held(case: &HeldCase, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let srv = Server::start(&fresh_db(dir.path()), &SrvCfg::default()).await?;
    let http = srv.http();
    let mut all = BTreeSet::new();
    for s in 0..case.submissions {
        let body = json!({"chunk_contents": {"SeeObjectStorage": {"prefix": "p", "count": case.chunks}}, "metadata": null, "strategic_metadata": {"k": s % 7}, "chunk_size": 1});
        let id = http.submit(&body).await?;
        all.extend((0..case.chunks).map(|i| (id, i)));
    }
    let n = all.len();
    let mut taken = BTreeSet::new();
    let mut consumers = vec![];
    let mut r = 0;
    while taken.len() < n {
        let strat = &case.strats[r % case.strats.len()];
        let mut c = Raw::connect(srv.port, Arc::default()).await?;
        for _ in 0..2 {
            let want = (case.take as usize).min(n - taken.len());
            if want == 0 {
                break;
            }
            c.reserve(case.take, &strat.json()).await;
            let Some(got) = c.recv(Duration::from_secs(if mode.slow { 60 } else { 20 })).await else {
                return fail_p(&["P26", "P09", "P11"], "a consumer gets nothing although there are chunks nobody holds", format!("{} of {n} are held, {}", taken.len(), strat.kind()));
            };
            let Parsed::Reserved { chunks, .. } = parse(&got.msg) else {
                return fail_p(&["P26", "P09", "P11"], "a consumer gets nothing although there are chunks nobody holds", format!("{} of {n} are held: {:.300}", taken.len(), got.msg.to_string()));
            };
            for g in &chunks {
                info.evals += 1;
                if !all.contains(&(g.sub, g.idx)) {
                    return fail_p(&["P01", "P11"], "a chunk that does not exist is handed out", format!("{} {}", g.sub, g.idx));
                }
                if !taken.insert((g.sub, g.idx)) {
                    return fail_p(&["P07"], "a chunk is handed out again while a consumer holds it", format!("{} of {n} are held: chunk {} of {}", taken.len(), g.idx, g.sub));
                }
            }
            if chunks.len() != want {
                return fail_p(&["P26", "P11"], "a consumer gets fewer chunks than it asked for although there are enough", format!("{} of {want}, {} of {n} are held, {}", chunks.len(), taken.len(), strat.kind()));
            }
        }
        r += 1;
        consumers.push(c);
    }
    // All is held now: another consumer gets nothing
    let mut c = Raw::connect(srv.port, Arc::default()).await?;
    c.reserve(case.take, &case.strats[r % case.strats.len()].json()).await;
    if let Some(got) = c.recv(Duration::from_millis(700)).await {
        return fail_p(&["P07"], "a chunk is handed out again while a consumer holds it", format!("when all {n} are held: {:.300}", got.msg.to_string()));
    }
    // It all comes back when those who hold it go
    for (i, c) in consumers.into_iter().enumerate() {
        if i % 2 == 0 {
            c.close().await;
        } else {
            c.drop_hard().await;
        }
    }
    let mut back: BTreeSet<(u64, u64)> = BTreeSet::new();
    let end = tokio::time::Instant::now() + Duration::from_secs(if mode.slow { 40 } else { 12 });
    while back.len() < n {
        if tokio::time::Instant::now() > end {
            return fail_p(&["P08", "P26"], "chunks of consumers that went away do not become available again", format!("{} of {n} came back", back.len()));
        }
        if let Some(got) = c.recv(Duration::from_millis(500)).await {
            if let Parsed::Reserved { chunks, .. } = parse(&got.msg) {
                for g in chunks {
                    info.evals += 1;
                    if !back.insert((g.sub, g.idx)) {
                        return fail_p(&["P07"], "a chunk is handed out again while a consumer holds it", format!("chunk {} of {}, after all came back", g.idx, g.sub));
                    }
                }
                c.reserve(2 * n as u64, &case.strats[r % case.strats.len()].json()).await;
            }
        }
    }
    c.close().await;
    if n > 10_000 {
        info.tag("ten-thousand-held");
    }
    if case.submissions > 1000 {
        info.tag("thousand-submissions");
    }
    info.nontrivial = n > 10_000 || case.submissions > 1000;
    srv.stop().await;
    Ok(info)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BurstCase {
    pub sizes: Vec<u64>,
    pub consumers: u64,
    /// of a hundred results, how many are failures
    pub fails: u64,
    pub seed: u64,
}
/// Consumers that send thousands of results at once: all of them are recorded
pub struct Burst;

impl Prop for Burst {
    type Case = BurstCase;
    fn name(&self) -> &'static str {
        "result-burst"
    }
    fn rule(&self) -> &'static str {
        "more than 2000 results were sent at once"
    }
    fn threads(&self) -> usize {
        3
    }
    fn generate(&self, rng: &mut Rng, i: u64, _: Tier) -> BurstCase {
        let total = if i % 3 == 0 { rng.range(300, 1500) } else { rng.range(2500, 5000) };
        let n = rng.range(1, 6);
        BurstCase { sizes: (0..n).map(|_| 1 + total / n).collect(), consumers: rng.range(1, 4), fails: *rng.pick(&[0, 1, 20, 100]), seed: rng.u64() }
    }
    fn shrink(&self, c: &BurstCase) -> Vec<BurstCase> {
        let mut out: Vec<BurstCase> = shrink_vec(&c.sizes).into_iter().filter(|s| !s.is_empty()).map(|sizes| BurstCase { sizes, ..c.clone() }).collect();
        if c.consumers > 1 {
            out.push(BurstCase { consumers: 1, ..c.clone() });
        }
        if c.fails > 0 {
            out.push(BurstCase { fails: 0, ..c.clone() });
        }
        out
    }
    fn run(&self, case: &BurstCase, mode: Mode) -> RunResult {
        rt_multi(2).block_on(burst(case, mode))
    }
}

async fn burst(case: &BurstCase, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let srv = Server::start(&file, &SrvCfg { max_retries: 5, ..Default::default() }).await?;
    let http = srv.http();
    let mut rng = Rng::new(case.seed);
    let mut ids = vec![];
    for n in &case.sizes {
        ids.push((http.submit(&json!({"chunk_contents": {"SeeObjectStorage": {"prefix": "p", "count": n}}, "chunk_size": 1})).await?, *n));
    }
    let total: u64 = case.sizes.iter().sum();
    let mut held = vec![];
    for k in 0..case.consumers {
        let mut c = Raw::connect(srv.port, Arc::default()).await?;
        c.reserve(if k + 1 == case.consumers { total } else { total / case.consumers }, &Strat::Random.json()).await;
        let Some(got) = c.recv(Duration::from_secs(30)).await else {
            return fail_p(&["P26", "P09"], "a consumer gets nothing although there is work", format!("consumer {k} of {}", case.consumers));
        };
        let Parsed::Reserved { chunks, .. } = parse(&got.msg) else {
            return fail_p(&["P26", "P09"], "a consumer gets nothing although there is work", format!("{:.300}", got.msg.to_string()));
        };
        held.push((c, chunks));
    }
    if held.iter().map(|h| h.1.len() as u64).sum::<u64>() != total {
        return fail_p(&["P26", "P11"], "not all chunks are handed out", format!("{} of {total}", held.iter().map(|h| h.1.len() as u64).sum::<u64>()));
    }
    // all at once
    let mut sent = vec![];
    for (mut c, chunks) in held {
        let mut rng = Rng::new(rng.u64());
        let fails = case.fails;
        sent.push(tokio::spawn(async move {
            let (mut done, mut failed) = (vec![], BTreeSet::new());
            for g in chunks {
                if rng.chance(fails, 100) {
                    c.fail((g.sub, g.idx), "no").await;
                    failed.insert((g.sub, g.idx));
                } else {
                    let out = vec![g.idx as u8, (g.idx >> 8) as u8, g.sub as u8];
                    c.complete((g.sub, g.idx), &Some(out.clone())).await;
                    done.push(((g.sub, g.idx), out));
                }
            }
            (c, done, failed)
        }));
    }
    let (mut done, mut failed, mut open) = (BTreeMap::new(), BTreeSet::new(), vec![]);
    for s in sent {
        let (c, d, f) = s.await.map_err(infra_err)?;
        done.extend(d);
        failed.extend(f);
        open.push(c);
    }
    // the failed ones are handed out again, and nothing else
    let mut c = Raw::connect(srv.port, Arc::default()).await?;
    let limit = Duration::from_secs(if mode.slow { 45 } else { 20 });
    let end = tokio::time::Instant::now() + limit;
    let mut again = BTreeSet::new();
    if !failed.is_empty() {
        c.reserve(2 * total, &Strat::Oldest.json()).await;
    }
    loop {
        let mut progress = 0;
        for (id, n) in &ids {
            let s = http.status(*id).await?;
            let d = match s.get("Completed") {
                Some(_) => *n,
                None => s["InProgress"]["chunks_done"].as_u64().unwrap_or(0),
            };
            progress += d;
        }
        if progress == done.len() as u64 && again.len() == failed.len() {
            break;
        }
        if tokio::time::Instant::now() > end {
            if again.len() < failed.len() {
                return fail_p(&["P08", "P26", "P04"], "chunks that failed, of many results sent at once, are not handed out again", format!("{} of {}", again.len(), failed.len()));
            }
            return fail_p(&["P02", "P03", "P26"], "results, of many sent at once, are not recorded", format!("{progress} of {}", done.len()));
        }
        heartbeat();
        if let Some(got) = c.recv(Duration::from_millis(100)).await {
            if let Parsed::Reserved { chunks, .. } = parse(&got.msg) {
                for g in chunks {
                    let k = (g.sub, g.idx);
                    info.evals += 1;
                    if !failed.contains(&k) {
                        return fail_p(&["P07", "P02"], "a chunk whose result was sent is handed out again", format!("chunk {} of {}", k.1, k.0));
                    }
                    if !again.insert(k) {
                        return fail_p(&["P07"], "a chunk is handed out again while a consumer holds it", format!("chunk {} of {}", k.1, k.0));
                    }
                }
                c.reserve(2 * total, &Strat::Oldest.json()).await;
            }
        }
    }
    let mut conn = open_reader(&file).await?;
    let rows: Vec<(i64, i64, Option<Vec<u8>>)> = sqlx::query_as("SELECT submission_id, chunk_index, output_content FROM chunks_completed").fetch_all(&mut conn).await.map_err(infra_err)?;
    let have: BTreeMap<(u64, u64), Vec<u8>> = rows.into_iter().map(|(s, i, o)| ((s as u64, i as u64), o.unwrap_or_default())).collect();
    info.evals += have.len() as u64;
    if have != done {
        return fail_p(&["P03", "P02"], "recorded results differ from those sent", format!("{} recorded, {} sent", have.len(), done.len()));
    }
    drop(open);
    c.close().await;
    srv.stop().await;
    info.nontrivial = total > 2000;
    info.tag_n("failed", failed.len() as u64);
    Ok(info)
}
