//! P28: the server program, its settings, how it starts and how it stops.
use crate::check;
use crate::engine::*;
use crate::real::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::Notify;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Port {
    /// any free port
    Zero,
    /// a given one
    Given,
    /// a given one that is in use for so many ms
    Busy(u64),
    /// a given one that stays in use
    Taken,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Probe {
    Retries,
    Expiry,
    Silence,
    Lookup,
    Parallel(u64),
    Volume,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProgramCase {
    pub port: Port,
    /// whether the port is to be reported
    pub pipe: bool,
    /// the reader of the pipe is gone
    pub broken_pipe: bool,
    pub heartbeat: Option<String>,
    pub missable: Option<u64>,
    pub retries: Option<u32>,
    pub expiry: Option<String>,
    pub returned: Option<u64>,
    pub readers: Option<u32>,
    /// "" is the default
    pub file: String,
    pub equals: bool,
    /// settings that have to be refused
    pub invalid: Option<(String, String)>,
    pub probes: Vec<Probe>,
    /// open connections and requests when it is stopped
    pub busy_stop: bool,
}
pub struct Program;

fn dur(s: &str) -> Duration {
    let mut total = 0.0;
    for w in s.split(' ') {
        let k = w.find(|c: char| c.is_ascii_alphabetic()).unwrap();
        let n: f64 = w[..k].parse().unwrap();
        total += n * match &w[k..] {
            "ms" | "msec" => 0.001,
            "s" | "sec" | "seconds" => 1.0,
            "m" | "min" | "minutes" => 60.0,
            "h" | "hours" => 3600.0,
            "days" | "d" => 86400.0,
            "us" => 1e-6,
            o => panic!("unit {o}"),
        };
    }
    Duration::from_secs_f64(total)
}

impl Prop for Program {
    type Case = ProgramCase;
    fn name(&self) -> &'static str {
        "program"
    }
    fn rule(&self) -> &'static str {
        "the program ran with at least two settings other than the default and was probed, or refused to start"
    }
    fn threads(&self) -> usize {
        24
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> ProgramCase {
        let opt = |rng: &mut Rng, xs: &[&str]| rng.chance(3, 5).then(|| rng.pick(xs).to_string());
        let heartbeat = opt(rng, &["100ms", "250ms", "500msec", "1s", "1s 200ms", "30s", "2min", "1h 30m"]);
        let expiry = opt(rng, &["300ms", "900ms", "1s", "1s 500ms", "2sec", "5min", "1h", "2days"]);
        let missable = rng.chance(3, 5).then(|| rng.below(5));
        let retries = rng.chance(3, 5).then(|| *rng.pick(&[0, 1, 2, 3, 7]));
        let returned = rng.chance(3, 5).then(|| rng.range(1, 6));
        let readers = rng.chance(3, 5).then(|| *rng.pick(&[1, 2, 3, 16, 40]));
        let port = match rng.below(16) {
            0 => Port::Taken,
            1..=2 => Port::Busy(rng.range(20, 600)),
            3..=6 => Port::Given,
            _ => Port::Zero,
        };
        let invalid = rng.chance(1, 6).then(|| {
            let (a, b) = *rng.pick(&[
                ("--max-read-pool-size", "0"),
                ("--max-read-pool-size", "-1"),
                ("--max-submissions-returned", "0"),
                ("--max-submissions-returned", "9223372036854775807"),
                ("--max-submissions-returned", "18446744073709551615"),
                ("--max-submissions-returned", "-3"),
                ("--max-submissions-returned", "many"),
                ("--port", "65536"),
                ("--port", "-1"),
                ("--port", "http"),
                ("--reservation-expiration", "10 lightyears"),
                ("--reservation-expiration", "10"),
                ("--heartbeat-interval", "-1s"),
                ("--heartbeat-interval", ""),
                ("--max-submission-age", "soon"),
                ("--max-chunk-retries", "-1"),
                ("--max-chunk-retries", "4294967296"),
                ("--max-missable-heartbeats", "-2"),
                ("--report-bound-port-pipe", "-2"),
                ("--report-bound-port-pipe", "x"),
                ("--database-filename", "no/such/folder/q.db"),
                ("--no-such-setting", "1"),
            ]);
            (a.to_string(), b.to_string())
        });
        let mut probes = vec![];
        for _ in 0..rng.range(1, 4) {
            probes.push(match rng.below(12) {
                0..=2 => Probe::Retries,
                3..=4 => Probe::Expiry,
                5..=6 => Probe::Silence,
                7..=8 => Probe::Lookup,
                9..=10 => Probe::Parallel(rng.range(4, 60)),
                _ => Probe::Volume,
            });
        }
        ProgramCase {
            pipe: port == Port::Zero || rng.chance(1, 2),
            broken_pipe: port == Port::Given && rng.chance(1, 4),
            port,
            heartbeat,
            missable,
            retries,
            expiry,
            returned,
            readers,
            file: rng.pick(&["", "q.db", "./sub dir/queue", "ünï.sqlite"]).to_string(),
            equals: rng.chance(1, 2),
            invalid,
            probes,
            busy_stop: rng.chance(2, 3),
        }
    }
    fn shrink(&self, c: &ProgramCase) -> Vec<ProgramCase> {
        let mut out: Vec<ProgramCase> = shrink_vec(&c.probes).into_iter().map(|probes| ProgramCase { probes, ..c.clone() }).collect();
        let d = c.clone();
        out.push(ProgramCase { heartbeat: None, missable: None, ..d.clone() });
        out.push(ProgramCase { expiry: None, ..d.clone() });
        out.push(ProgramCase { readers: None, ..d.clone() });
        out.push(ProgramCase { file: String::new(), ..d.clone() });
        out.push(ProgramCase { busy_stop: false, ..d });
        out
    }
    fn run(&self, case: &ProgramCase, mode: Mode) -> RunResult {
        let rt = rt_multi(2);
        let r = rt.block_on(run(case, mode));
        rt.shutdown_background();
        r
    }
}

/// A port below the range of those that are given out automatically
fn some_port(salt: u64) -> Result<std::net::TcpListener, RunError> {
    let mut rng = Rng::new(salt ^ (std::process::id() as u64) << 32);
    for _ in 0..200 {
        if let Ok(l) = std::net::TcpListener::bind(("0.0.0.0", rng.range(15_000, 31_000) as u16)) {
            return Ok(l);
        }
    }
    infra("no free port")
}

struct Prog {
    real: Real,
    /// what was written to the pipe, once it was closed
    reported: Option<tokio::task::JoinHandle<std::io::Result<Vec<u8>>>>,
}

fn args(case: &ProgramCase, port: u16) -> Vec<String> {
    let mut kv: Vec<(String, String)> = vec![];
    let mut add = |k: &str, v: Option<String>| {
        if let Some(v) = v {
            kv.push((k.into(), v));
        }
    };
    add("--port", Some(port.to_string()));
    add("--report-bound-port-pipe", case.pipe.then(|| "0".into()));
    add("--database-filename", (!case.file.is_empty()).then(|| case.file.clone()));
    add("--heartbeat-interval", case.heartbeat.clone());
    add("--max-missable-heartbeats", case.missable.map(|m| m.to_string()));
    add("--max-chunk-retries", case.retries.map(|m| m.to_string()));
    add("--reservation-expiration", case.expiry.clone());
    add("--max-submissions-returned", case.returned.map(|m| m.to_string()));
    add("--max-read-pool-size", case.readers.map(|m| m.to_string()));
    if let Some((k, v)) = &case.invalid {
        kv.retain(|x| x.0 != *k);
        kv.push((k.clone(), v.clone()));
    }
    let neg = |v: &str| v.starts_with('-');
    kv.into_iter().flat_map(|(k, v)| if case.equals || neg(&v) { vec![format!("{k}={v}")] } else { vec![k, v] }).collect()
}

fn launch(case: &ProgramCase, dir: &std::path::Path, port: u16) -> Result<Prog, RunError> {
    let (mut r, w) = std::io::pipe().map_err(infra_err)?;
    let log = dir.join("log");
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&log).map_err(infra_err)?;
    let mut c = Command::new(server_path());
    c.current_dir(dir).args(args(case, port));
    c.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").env("OPSQUEUE_OTEL_DEFAULT_TRACE_SAMPLE_RATE", "0").env("OTEL_EXPORTER_OTLP_ENDPOINT", "http://127.0.0.1:1").env_remove("SENTRY_DSN");
    c.stdout(Stdio::null()).stderr(out);
    if case.pipe {
        c.stdin(Stdio::from(w));
    } else {
        c.stdin(Stdio::null());
        drop(w);
    }
    let child = c.spawn().map_err(|e| infra_err(format!("cannot start {}: {e}", server_path().display())))?;
    drop(c);
    let broken = case.broken_pipe;
    let reported = Some(tokio::task::spawn_blocking(move || {
        let mut all = vec![];
        if broken {
            drop(r);
        } else {
            r.read_to_end(&mut all)?;
        }
        Ok(all)
    }));
    let file = dir.join(if case.file.is_empty() { "opsqueue.db" } else { &case.file });
    Ok(Prog { real: Real { child, port, file: file.to_string_lossy().into_owned(), log: log.to_string_lossy().into_owned() }, reported })
}

async fn wait_exit(p: &mut Prog, within: Duration) -> Option<std::process::ExitStatus> {
    let end = Instant::now() + within;
    loop {
        if let Ok(Some(s)) = p.real.child.try_wait() {
            return Some(s);
        }
        if Instant::now() > end {
            return None;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
}

fn one(meta: &[(&str, i64)], n: u64) -> Value {
    let contents: Vec<Value> = (0..n).map(|i| json!([i])).collect();
    json!({"chunk_contents": {"Direct": {"contents": contents}}, "metadata": null, "chunk_size": 1, "strategic_metadata": meta.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>()})
}

async fn run(case: &ProgramCase, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let patience = Duration::from_secs(if mode.slow { 60 } else { 30 });
    std::fs::create_dir_all(dir.path().join("sub dir")).map_err(infra_err)?;
    let holder = if case.port == Port::Zero { None } else { Some(some_port(case.probes.len() as u64 ^ Instant::now().elapsed().as_nanos() as u64 ^ (&raw const *case as u64))?) };
    let port = holder.as_ref().map_or(0, |h| h.local_addr().map_or(0, |a| a.port()));
    let mut holder = holder;
    if case.port == Port::Given {
        holder = None;
    }
    let mut p = launch(case, dir.path(), port)?;
    // ---- refused
    if case.invalid.is_some() || case.port == Port::Taken {
        let Some(st) = wait_exit(&mut p, patience).await else {
            return fail("the program does not end although it cannot start", format!("{:?} {:?}: {}", case.invalid, case.port, p.real.tail()));
        };
        info.evals += 3;
        check!(case.invalid.is_none() || !st.success(), "invalid settings are not reported as an error", "{:?}: {st}", case.invalid);
        if case.pipe && !case.broken_pipe {
            let got = tokio::time::timeout(patience, p.reported.take().unwrap()).await.map_err(infra_err)?.map_err(infra_err)?.map_err(infra_err)?;
            check!(got.is_empty(), "a port is reported although the program did not start", "{:?}: {got:?}", case.invalid);
        }
        if let Some((k, v)) = &case.invalid {
            check!(!std::path::Path::new(&p.real.file).exists() || k == "--database-filename", "a database is made although the settings are invalid", "{k} {v}");
            info.tag("invalid-settings");
        } else {
            info.tag("port-stays-in-use");
        }
        info.nontrivial = true;
        return Ok(info);
    }
    if let Port::Busy(ms) = case.port {
        let h = holder.take();
        info.tag("port-was-in-use");
        tokio::time::sleep(Duration::from_millis(ms)).await;
        drop(h);
    }
    // ---- started
    if case.pipe && !case.broken_pipe {
        let got = match tokio::time::timeout(patience, p.reported.take().unwrap()).await {
            Ok(g) => g.map_err(infra_err)?.map_err(infra_err)?,
            Err(_) => return fail("the port is not reported, or the pipe stays open", format!("{:?}: {}", case.port, p.real.tail())),
        };
        check!(got.len() == 2, "the port is not reported as two bytes", "{got:?}: {}", p.real.tail());
        let n = u16::from_be_bytes([got[0], got[1]]);
        check!(n != 0 && (port == 0 || n == port), "a wrong port is reported", "{n} instead of {port}");
        p.real.port = n;
        info.tag("port-reported");
    }
    let http = Http::patient(p.real.port);
    up(&http, &mut p, patience).await?;
    check!(std::path::Path::new(&p.real.file).exists(), "the database is not where it is configured to be", "{}", p.real.file);
    let beat = case.heartbeat.as_deref().map_or(Duration::from_secs(10), dur);
    let missable = case.missable.unwrap_or(3);
    let expiry = case.expiry.as_deref().map_or(Duration::from_secs(600), dur);
    let init = {
        let c = Raw::connect(p.real.port, Arc::new(Notify::new())).await?;
        let i = c.init["Init"].clone();
        c.close().await;
        i
    };
    let told = Duration::new(init["heartbeat_interval"]["secs"].as_u64().unwrap_or(0), init["heartbeat_interval"]["nanos"].as_u64().unwrap_or(0) as u32);
    info.evals += 2;
    check!(told == beat && init["max_missable_heartbeats"] == json!(missable), "consumers are told other heartbeat settings than the configured ones", "{init}, configured {beat:?} and {missable}");
    let mut known: Vec<(u64, Value)> = vec![];
    for pr in &case.probes {
        heartbeat();
        match pr {
            Probe::Retries => {
                // so many attempts, and always one
                let max = (case.retries.unwrap_or(10) as u64).max(1);
                let id = http.submit(&one(&[], 1)).await?;
                let mut c = Raw::connect(p.real.port, Arc::new(Notify::new())).await?;
                for n in 0..max {
                    c.reserve(1, &json!("Oldest")).await;
                    let mut mine = None;
                    // (what an earlier probe left over goes by)
                    while mine.is_none() {
                        let Some(g) = c.recv(patience).await else {
                            return fail("a failed chunk is not offered again", format!("attempt {n} of {max}: {}", http.status(id).await?));
                        };
                        if let Parsed::Reserved { chunks, .. } = parse(&g.msg) {
                            for k in chunks {
                                if k.sub == id {
                                    mine = Some(k);
                                } else {
                                    c.complete((k.sub, k.idx), &None).await;
                                    c.reserve(1, &json!("Oldest")).await;
                                }
                            }
                        }
                    }
                    let k = mine.unwrap();
                    info.evals += 1;
                    check!(k.chunk["retries"] == json!(n), "a chunk has a wrong number of attempts", "{} instead of {n}", k.chunk);
                    let st = http.status(id).await?;
                    check!(st.get("InProgress").is_some(), "a submission ended before its attempts were used up", "{n} of {max}: {st}");
                    c.fail((id, 0), "no").await;
                }
                let end = Instant::now() + patience;
                let st = loop {
                    let st = http.status(id).await?;
                    if st.get("InProgress").is_none() {
                        break st;
                    }
                    check!(Instant::now() < end, "a submission is in progress although its attempts are used up", "{max}: {st}");
                    tokio::time::sleep(Duration::from_millis(20)).await;
                };
                check!(st.get("Failed").is_some(), "a submission whose attempts are used up is not failed", "{st}");
                known.push((id, st));
                c.close().await;
                info.tag("retries");
            }
            Probe::Expiry => {
                let id = http.submit(&one(&[], 1)).await?;
                let mut c = Raw::connect(p.real.port, Arc::new(Notify::new())).await?;
                let t0 = Instant::now();
                c.reserve(10, &json!("Newest")).await;
                let Some(g) = c.recv(patience).await else { return fail("no chunk is handed out", format!("{id}")) };
                check!(matches!(parse(&g.msg), Parsed::Reserved { ref chunks, .. } if chunks.iter().any(|k| k.sub == id)), "no chunk is handed out", "{}", g.msg);
                let t1 = g.at;
                let wait = if expiry < Duration::from_secs(10) { expiry + patience } else { Duration::from_millis(2500) };
                let got = loop {
                    let Some(g) = c.recv(wait.saturating_sub(t1.elapsed())).await else { break None };
                    if matches!(parse(&g.msg), Parsed::Expired { sub, .. } if sub == id) {
                        break Some(g);
                    }
                };
                info.evals += 1;
                if expiry < Duration::from_secs(10) {
                    let Some(g) = got else { return fail("a reservation does not expire", format!("after {:?}, configured {expiry:?}", t1.elapsed())) };
                    // (the two clocks are the same one, and the reservation is made after t0)
                    check!(g.at - t0 >= expiry, "a reservation expired too early", "{:?} after the request, configured {expiry:?}", g.at - t0);
                    check!(g.at - t1 < expiry + Duration::from_secs(if mode.slow { 15 } else { 5 }), "a reservation expired too late", "{:?} after it was made, configured {expiry:?}", g.at - t1);
                    info.tag("expired");
                } else {
                    check!(got.is_none(), "a reservation expired too early", "configured {expiry:?}");
                }
                c.complete((id, 0), &None).await;
                c.close().await;
            }
            Probe::Silence => {
                if beat * (missable as u32 + 1) > Duration::from_secs(8) {
                    continue;
                }
                let id = http.submit(&one(&[], 1)).await?;
                let mut c = Raw::connect(p.real.port, Arc::new(Notify::new())).await?;
                c.reserve(100, &json!("Newest")).await;
                let Some(g) = c.recv(patience).await else { return fail("no chunk is handed out", format!("{id}")) };
                let t0 = Instant::now();
                let quiet = c.silence();
                let mut d = Raw::connect(p.real.port, Arc::new(Notify::new())).await?;
                d.reserve(100, &json!("Newest")).await;
                let got = loop {
                    let Some(g) = d.recv(patience).await else { break None };
                    if let Parsed::Reserved { chunks, .. } = parse(&g.msg) {
                        if chunks.iter().any(|k| k.sub == id) {
                            break Some(g);
                        }
                        d.reserve(100, &json!("Newest")).await;
                    }
                };
                info.evals += 1;
                let Some(h) = got else { return fail("the chunks of a silent consumer are not offered again", format!("for {patience:?}, heartbeats {beat:?} x {missable}")) };
                let _ = g;
                // it is up to `missable` heartbeats that may be missed, or the reservation expired
                let least = (beat * missable as u32).min(expiry);
                let took = h.at.saturating_duration_since(t0);
                check!(took + Duration::from_millis(150) >= least, "the chunks of a consumer are taken away although it may still answer", "{took:?}, heartbeats {beat:?} x {missable}, expiry {expiry:?}");
                drop(quiet);
                if let Parsed::Reserved { chunks, .. } = parse(&h.msg) {
                    for k in chunks {
                        d.complete((k.sub, k.idx), &None).await;
                    }
                }
                d.close().await;
                info.tag("silent-consumer");
            }
            Probe::Lookup => {
                let max = case.returned.unwrap_or(1000);
                if max > 10 {
                    continue;
                }
                let v = (known.len() as i64 + 1) * 1000 + p.real.port as i64;
                let mut ids = vec![];
                for n in 1..=max + 1 {
                    ids.push(http.submit(&one(&[("probe", v), ("n", n as i64)], 1)).await?);
                    let (c, body) = http.meta(&json!({"probe": v})).await?;
                    info.evals += 1;
                    if n <= max {
                        check!(c == 200 && body == json!(ids), "a lookup does not return all matches although they are within the maximum", "{c} {body}, maximum {max}, submitted {ids:?}");
                    } else {
                        check!(c >= 400, "a lookup returns more than the maximum", "{c} {body}, maximum {max}");
                    }
                }
                for id in ids {
                    let (c, _) = http.cancel(id).await?;
                    check!(c == 200, "cancelling fails", "{c}");
                    known.push((id, http.status(id).await?));
                }
                info.tag("lookup-maximum");
            }
            Probe::Parallel(n) => {
                let id = http.submit(&one(&[], *n)).await?;
                let all = (0..*n).map(|i| {
                    let (http, port) = (http.clone(), p.real.port);
                    tokio::spawn(async move {
                        let mut c = Raw::connect(port, Arc::new(Notify::new())).await?;
                        c.reserve(1, &json!(["Oldest", "Random", "Newest"][i as usize % 3])).await;
                        let st = http.status(id).await?;
                        if st.get("InProgress").is_none() && st.get("Completed").is_none() {
                            return fail("a submission is not in progress", format!("{st}"));
                        }
                        let Some(g) = c.recv(Duration::from_secs(60)).await else { return fail("a consumer among many is not served", format!("{i} of as many consumers as chunks")) };
                        if let Parsed::Reserved { chunks, .. } = parse(&g.msg) {
                            for k in chunks {
                                c.complete((k.sub, k.idx), &Some(vec![1])).await;
                            }
                        }
                        c.close().await;
                        Ok(())
                    })
                });
                for t in futures::future::join_all(all).await {
                    // (with a short expiry, a chunk may have gone to somebody else)
                    match t.map_err(infra_err)? {
                        Err(RunError::Violation(_)) if expiry < Duration::from_secs(100) => {}
                        r => r?,
                    }
                    info.evals += 1;
                }
                info.tag("in-parallel");
            }
            Probe::Volume => {
                let blob: Vec<u8> = (0..120_000u32).map(|i| (i * 7919 >> 3) as u8).collect();
                for i in 0..120 {
                    let id = http.submit(&json!({"chunk_contents": {"Direct": {"contents": [blob]}}, "metadata": [i], "chunk_size": 1, "strategic_metadata": {}})).await?;
                    http.cancel(id).await?;
                    heartbeat();
                }
                let wal = format!("{}-wal", p.real.file);
                let end = Instant::now() + patience;
                loop {
                    let id = http.submit(&one(&[], 1)).await?;
                    http.cancel(id).await?;
                    let size = std::fs::metadata(&wal).map_or(0, |m| m.len());
                    info.evals += 1;
                    if size <= 8 << 20 {
                        break;
                    }
                    check!(Instant::now() < end, "the write-ahead log keeps growing", "{size} bytes after {patience:?} without much to do");
                    tokio::time::sleep(Duration::from_millis(300)).await;
                }
                info.tag("volume");
            }
        }
        check!(p.real.exited().is_none(), "the program ended by itself", "{pr:?}: {}", p.real.tail());
    }
    // ---- stop
    let mut open = vec![];
    let mut background = vec![];
    if case.busy_stop {
        for i in 0..4 {
            let mut c = Raw::connect(p.real.port, Arc::new(Notify::new())).await?;
            if i > 0 {
                c.reserve(i, &json!("Oldest")).await;
            }
            open.push(c);
        }
        for i in 0..3i64 {
            let http = http.clone();
            background.push(tokio::spawn(async move {
                let mut ids = vec![];
                // until it is no longer there
                while let Ok((200, v)) = http.post("/producer/submissions", &one(&[("b", i)], 2)).await {
                    ids.extend(v.as_u64());
                }
                ids
            }));
        }
        tokio::time::sleep(Duration::from_millis(80)).await;
    }
    let t0 = Instant::now();
    let stopped = p.real.interrupt(patience).await;
    info.evals += 1;
    check!(stopped, "the program does not stop when told to", "for {patience:?}, {} open connections: {}", open.len(), p.real.tail());
    let status = p.real.exited().unwrap_or_default();
    check!(status.contains("status: 0"), "the program does not stop cleanly when told to", "{status}: {}", p.real.tail());
    check!(t0.elapsed() < Duration::from_secs(if mode.slow { 20 } else { 10 }), "the program takes long to stop", "{:?}", t0.elapsed());
    let mut acked = vec![];
    for b in background {
        acked.extend(b.await.map_err(infra_err)?);
    }
    for c in &open {
        let end = Instant::now() + Duration::from_secs(5);
        while !c.closed() {
            check!(Instant::now() < end, "a consumer's connection is open after the program ended", "");
            let _ = c.recv(Duration::from_millis(50)).await;
        }
    }
    // ---- and start again
    let again = ProgramCase { port: Port::Zero, pipe: true, broken_pipe: false, ..case.clone() };
    let mut q = launch(&again, dir.path(), 0)?;
    let got = tokio::time::timeout(patience, q.reported.take().unwrap()).await.map_err(infra_err)?.map_err(infra_err)?.map_err(infra_err)?;
    check!(got.len() == 2, "the program does not start again", "{got:?}: {}", q.real.tail());
    q.real.port = u16::from_be_bytes([got[0], got[1]]);
    let http = Http::patient(q.real.port);
    up(&http, &mut q, patience).await?;
    for (id, want) in &known {
        let st = http.status(*id).await?;
        info.evals += 1;
        check!(st == *want, "a submission changed while the program was stopped and started", "{st}, before {want}");
    }
    for id in &acked {
        let st = http.status(*id).await?;
        info.evals += 1;
        check!(st.get("InProgress").is_some(), "an acknowledged submission is gone after the program was stopped and started", "{id}: {st}");
    }
    info.tag_n("acknowledged-while-stopping", acked.len() as u64);
    let set = [case.heartbeat.is_some(), case.missable.is_some(), case.retries.is_some(), case.expiry.is_some(), case.returned.is_some(), case.readers.is_some(), !case.file.is_empty(), case.port != Port::Zero];
    info.nontrivial = set.iter().filter(|s| **s).count() >= 2 && !case.probes.is_empty();
    Ok(info)
}

/// Wait until it says it is healthy
async fn up(http: &Http, p: &mut Prog, patience: Duration) -> Result<(), RunError> {
    let end = Instant::now() + patience;
    loop {
        match http.get("/ping").await {
            Ok((200, v)) if v == json!("pong") => return Ok(()),
            Ok((503, _)) | Err(RunError::Infra(_)) => {}
            other => return fail("the health of the program cannot be read", format!("{other:?}")),
        }
        if let Some(s) = p.real.exited() {
            return fail("the program does not start", format!("{s}: {}", p.real.tail()));
        }
        if Instant::now() > end {
            return fail("the program does not become healthy", format!("for {patience:?}: {}", p.real.tail()));
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
}

/// P28: the program is healthy exactly while it can write to its database.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HealthCase {
    /// ms of rest, ms of lock (0: until it is noticed)
    pub locks: Vec<(u64, u64)>,
    pub producers: usize,
    pub readers: u32,
}
pub struct Health;

impl Prop for Health {
    type Case = HealthCase;
    fn name(&self) -> &'static str {
        "health"
    }
    fn rule(&self) -> &'static str {
        "the database could not be written for so long that the program has to notice"
    }
    fn threads(&self) -> usize {
        16
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> HealthCase {
        let mut locks: Vec<(u64, u64)> = (0..rng.below(4)).map(|_| (rng.range(10, 2500), rng.range(1, 1000))).collect();
        locks.push((rng.range(10, 5000), 0));
        HealthCase { locks, producers: rng.below(4) as usize, readers: *rng.pick(&[1, 4, 64]) }
    }
    fn shrink(&self, c: &HealthCase) -> Vec<HealthCase> {
        let mut out: Vec<HealthCase> = shrink_vec(&c.locks).into_iter().map(|locks| HealthCase { locks, ..c.clone() }).collect();
        out.push(HealthCase { producers: 0, ..c.clone() });
        out
    }
    fn run(&self, case: &HealthCase, mode: Mode) -> RunResult {
        let rt = rt_multi(2);
        let r = rt.block_on(run_health(case, mode));
        rt.shutdown_background();
        r
    }
}

async fn run_health(case: &HealthCase, mode: Mode) -> RunResult {
    use sqlx::Connection as _;
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = dir.path().join("q.db").to_string_lossy().into_owned();
    let mut real = Real::start(&file, &["--max-read-pool-size", &case.readers.to_string()], &[]).await?;
    let http = Http::patient(real.port);
    // it looks every 10 s, and waits at most 30 s for its turn and 5 s for the lock
    let notice = Duration::from_secs(if mode.slow { 120 } else { 75 });
    let t0 = Instant::now();
    while http.get("/ping").await?.0 != 200 {
        check!(t0.elapsed() < notice, "the program does not become healthy", "{}", real.tail());
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut background = vec![];
    for i in 0..case.producers {
        let (http, stop) = (http.clone(), stop.clone());
        background.push(tokio::spawn(async move {
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let _ = http.post("/producer/submissions", &one(&[("b", i as i64)], 2)).await;
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
        }));
    }
    let mut c = open_reader(&file).await?;
    for (pause, ms) in &case.locks {
        heartbeat();
        // nothing is wrong
        let end = Instant::now() + Duration::from_millis(*pause);
        while Instant::now() < end {
            let (code, _) = http.get("/ping").await?;
            info.evals += 1;
            check!(code == 200, "the program is not healthy although nothing is wrong", "{code}: {}", real.tail());
            tokio::time::sleep(Duration::from_millis(15)).await;
        }
        // (it is somebody else's turn until the lock is taken)
        let mut tries = 0;
        while let Err(e) = sqlx::query("BEGIN IMMEDIATE").execute(&mut c).await {
            tries += 1;
            if tries > 5 {
                return infra(format!("cannot lock: {e}"));
            }
        }
        let t0 = Instant::now();
        if *ms > 0 {
            while t0.elapsed() < Duration::from_millis(*ms) {
                let (code, _) = http.get("/ping").await?;
                info.evals += 1;
                check!(code == 200 || t0.elapsed() > Duration::from_millis(3000), "the program is not healthy although it has only just to wait", "{code}: {}", real.tail());
                tokio::time::sleep(Duration::from_millis(15)).await;
            }
            info.tag("short-lock");
            sqlx::query("ROLLBACK").execute(&mut c).await.map_err(infra_err)?;
        } else {
            while http.get("/ping").await?.0 == 200 {
                heartbeat();
                check!(t0.elapsed() < notice, "the program is healthy although its database cannot be written", "for {:?}", t0.elapsed());
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
            info.evals += 1;
            sqlx::query("ROLLBACK").execute(&mut c).await.map_err(infra_err)?;
            let t1 = Instant::now();
            while http.get("/ping").await?.0 != 200 {
                heartbeat();
                check!(t1.elapsed() < notice, "the program stays unhealthy although its database can be written again", "for {:?}: {}", t1.elapsed(), real.tail());
                tokio::time::sleep(Duration::from_millis(50)).await;
            }
            info.evals += 1;
            info.tag("noticed");
            info.nontrivial = true;
        }
        check!(real.exited().is_none(), "the program ended by itself", "{}", real.tail());
    }
    let _ = c.close().await;
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for b in background {
        let _ = b.await;
    }
    Ok(info)
}
