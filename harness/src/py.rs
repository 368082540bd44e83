//! P25: the real Python package (extension module built from /repo, Python files of /repo) in
//! real processes: a producer and consumers, against a real server and a file object store.
//! `pyharness/driver.py` carries out a generated case and logs what it saw; this judges.
use crate::check;
use crate::engine::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::BufRead;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Early {
    pub early: String,
    pub ops: Vec<Value>,
    pub fmt: String,
    pub metadata: Value,
    pub strategic: Value,
    pub chunk_size: i64,
    pub bad_size: i64,
    pub unknown: u64,
    pub max: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act {
    pub how: String,
    pub ops: Vec<Value>,
    pub fmt: String,
    pub metadata: Value,
    pub strategic: Value,
    pub chunk_size: i64,
    pub lazy: bool,
    pub shared: bool,
    pub wait: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Worker {
    pub how: String,
    pub strategy: Value,
    pub max: u64,
    pub default: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Process {
    pub shared: bool,
    pub threads: Vec<Worker>,
    /// killed after this many milliseconds, and started anew
    pub kill: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PyCase {
    pub fmt: String,
    /// the most submissions that a lookup may find
    #[serde(default = "many")]
    pub max_found: u64,
    pub early: Vec<Early>,
    pub actions: Vec<Act>,
    pub consumers: Vec<Process>,
}

fn many() -> u64 {
    100_000
}

pub struct PyClients;

fn value(rng: &mut Rng, fmt: &str, depth: u32) -> Value {
    let n = if depth == 0 { 6 } else { 9 };
    match rng.below(n) {
        0 => Value::Null,
        1 => json!(rng.chance(1, 2)),
        2 => json!(rng.i64_edgy()),
        3 => json!(rng.range(0, 4000) as f64 / 8.0 - 200.0),
        4 => json!(rng.string_edgy(8)),
        5 if fmt != "json" => json!({"$b": rng.bytes(12)}),
        6 => Value::Array((0..rng.below(4)).map(|_| value(rng, fmt, depth - 1)).collect()),
        7 => Value::Object((0..rng.below(4)).map(|_| (format!("k{}", rng.string_edgy(3)), value(rng, fmt, depth - 1))).collect()),
        _ => json!(rng.below(1000)),
    }
}
fn ops(rng: &mut Rng, fmt: &str, n: u64) -> Vec<Value> {
    (0..n).map(|_| value(rng, fmt, 2)).collect()
}
fn metadata(rng: &mut Rng) -> Value {
    match rng.below(3) {
        0 => Value::Null,
        1 => json!({"$b": []}),
        _ => json!({"$b": rng.bytes(20)}),
    }
}
fn strategic(rng: &mut Rng, n: usize) -> Value {
    match rng.below(4) {
        0 => Value::Null,
        1 => json!({}),
        2 => json!({"n": n, "é'k": rng.i64_edgy()}),
        _ => json!({"n": n}),
    }
}
fn strategy(rng: &mut Rng) -> Value {
    match rng.below(5) {
        0 => json!("oldest"),
        1 => json!("newest"),
        2 => json!("random"),
        3 => json!({"key": "n", "under": rng.pick(&["oldest", "newest", "random"])}),
        _ => json!({"key": "missing", "under": {"key": "n", "under": rng.pick(&["oldest", "newest", "random"])}}),
    }
}

impl Prop for PyClients {
    type Case = PyCase;
    fn name(&self) -> &'static str {
        "python"
    }
    fn rule(&self) -> &'static str {
        "a submission of several chunks completed with retries, and one failed or was cancelled"
    }
    fn threads(&self) -> usize {
        12
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> PyCase {
        let fmt = rng.pick(&["cbor", "json", "pickle"]).to_string();
        let early = (0..rng.below(4))
            .map(|i| {
                let n = rng.range(1, 8);
                Early {
                    early: rng.pick(&["unknown", "broken", "zero", "cancel", "cancel-waiting", "cancel-async", "interrupt", "interrupt-reserve", "lookup", "async-timeout"]).to_string(),
                    ops: ops(rng, &fmt, n),
                    fmt: fmt.clone(),
                    metadata: metadata(rng),
                    strategic: strategic(rng, 100 + i as usize),
                    chunk_size: rng.range(1, 5) as i64,
                    bad_size: *rng.pick(&[0, -1, i64::MIN]),
                    unknown: rng.u64() >> rng.range(1, 60),
                    max: rng.range(1, 4),
                }
            })
            .collect();
        let actions = (0..rng.range(1, 5))
            .map(|i| {
                let how = rng.pick(&["run", "run_chunks", "block", "poll", "twice", "async", "gather", "block"]).to_string();
                let n = match rng.below(10) {
                    0 => 0,
                    1 => rng.range(50, 300),
                    _ => rng.range(1, 25),
                };
                let chunk_size = match rng.below(8) {
                    0 => 1,
                    1 => n.max(1),
                    2 => n + 1,
                    3 => (n / 2).max(1),
                    4 => n.saturating_sub(1).max(1),
                    _ => rng.range(1, n.max(1)),
                } as i64;
                let chunk_size = chunk_size.max(n as i64 / 60 + 1);
                let mut ops = ops(rng, &fmt, n);
                if n > 0 {
                    for j in 0..rng.below(4) {
                        let at = rng.usize(n as usize);
                        let kind = rng.pick(&["once", "leave", "slow", "once", "type"]);
                        ops[at] = json!({"!": kind, "key": format!("{i}-{j}")});
                    }
                    if rng.chance(1, 5) && how != "gather" {
                        for j in 0..rng.range(1, 2) {
                            let at = rng.usize(n as usize);
                            ops[at] = json!({"!": "bad", "key": format!("{i}-bad{j}")});
                        }
                    }
                }
                Act {
                    how,
                    ops,
                    fmt: fmt.clone(),
                    metadata: metadata(rng),
                    strategic: strategic(rng, i as usize),
                    chunk_size,
                    lazy: rng.chance(1, 2),
                    shared: rng.chance(1, 2),
                    wait: rng.chance(1, 4),
                }
            })
            .collect();
        let consumers = (0..rng.range(1, 3))
            .map(|_| Process {
                shared: rng.chance(1, 2),
                threads: (0..rng.range(1, 3)).map(|_| Worker { how: rng.pick(&["each_op", "each_chunk", "raw", "manual"]).to_string(), strategy: strategy(rng), max: rng.range(1, 5), default: rng.chance(1, 3) }).collect(),
                kill: None,
            })
            .collect::<Vec<_>>();
        let mut c = PyCase { max_found: *rng.pick(&[1, 2, 3, 100_000]), fmt, early, actions, consumers };
        if rng.chance(1, 4) {
            c.consumers[0].kill = Some(rng.range(300, 1500));
        }
        c
    }
    fn run(&self, case: &PyCase, mode: Mode) -> RunResult {
        let rt = rt_multi(2);
        let r = run(&rt, case, mode);
        rt.shutdown_background();
        r
    }
    fn shrink(&self, case: &PyCase) -> Vec<PyCase> {
        let mut out = vec![];
        for early in shrink_vec(&case.early) {
            out.push(PyCase { early, ..case.clone() });
        }
        for actions in shrink_vec(&case.actions) {
            out.push(PyCase { actions, ..case.clone() });
        }
        for i in 0..case.consumers.len() {
            if case.consumers.len() > 1 {
                let mut c = case.clone();
                c.consumers.remove(i);
                out.push(c);
            }
            if case.consumers[i].threads.len() > 1 {
                let mut c = case.clone();
                c.consumers[i].threads.pop();
                out.push(c);
            }
            if case.consumers[i].kill.is_some() {
                let mut c = case.clone();
                c.consumers[i].kill = None;
                out.push(c);
            }
        }
        for (i, a) in case.actions.iter().enumerate() {
            for ops in shrink_vec(&a.ops).into_iter().take(6) {
                let mut c = case.clone();
                c.actions[i].ops = ops;
                out.push(c);
            }
        }
        out
    }
}

/// The package directory: /repo's Python files and the extension module built from /repo
fn site() -> &'static std::path::Path {
    static S: std::sync::OnceLock<Scratch> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let s = Scratch::new();
        let dir = s.path().join("opsqueue");
        std::fs::create_dir_all(&dir).expect("site");
        let from = std::path::Path::new("/repo/libs/opsqueue_python/python/opsqueue");
        for e in std::fs::read_dir(from).expect("python package") {
            let e = e.expect("python package");
            std::os::unix::fs::symlink(e.path(), dir.join(e.file_name())).expect("symlink");
        }
        let mut so = std::env::current_exe().expect("current_exe");
        so.set_file_name("libopsqueue_python.so");
        assert!(so.exists(), "{} is missing", so.display());
        std::os::unix::fs::symlink(so, dir.join("opsqueue_internal.so")).expect("symlink");
        s
    })
    .path()
}
fn driver_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())).join("pyharness")
}

struct Proc {
    child: Child,
    lines: mpsc::Receiver<String>,
}
impl Proc {
    fn start(dir: &str, args: &[&str]) -> Result<Proc, RunError> {
        let d = driver_dir();
        let err = std::fs::OpenOptions::new().create(true).append(true).open(format!("{dir}/stderr-{}", args.join("-"))).map_err(infra_err)?;
        let mut child = Command::new("/usr/bin/python3.12")
            .arg(d.join("driver.py"))
            .arg(args[0])
            .arg(dir)
            .args(&args[1..])
            .env("PYTHONPATH", format!("{}:{}", site().display(), d.join("site").display()))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env_remove("RUST_LOG")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .spawn()
            .map_err(|e| infra_err(format!("python: {e}")))?;
        let out = child.stdout.take().expect("stdout");
        let (tx, lines) = mpsc::channel();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Ok(Proc { child, lines })
    }
    fn wait_line(&self, what: &str, limit: Duration) -> Result<bool, ()> {
        let end = Instant::now() + limit;
        loop {
            match self.lines.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(l) if l == what => return Ok(true),
                Ok(_) => {}
                Err(mpsc::RecvTimeoutError::Timeout) => return Ok(false),
                Err(mpsc::RecvTimeoutError::Disconnected) => return Err(()),
            }
        }
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn events(dir: &str, pre: &str) -> Vec<Value> {
    let mut out = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(pre) {
            // a killed process may leave half a line
            out.extend(std::fs::read_to_string(e.path()).unwrap_or_default().lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()));
        }
    }
    out
}
fn tail(dir: &str, name: &str) -> String {
    let s = std::fs::read(format!("{dir}/{name}")).unwrap_or_default();
    String::from_utf8_lossy(&s[s.len().saturating_sub(800)..]).into_owned()
}
fn expected(ops: &[Value]) -> Value {
    Value::Array(ops.iter().map(|o| json!(["done", o])).collect())
}
fn special<'a>(op: &'a Value, kind: &str) -> Option<&'a str> {
    (op.get("!")?.as_str()? == kind).then(|| op["key"].as_str()).flatten()
}
fn strategic_out(v: &Value) -> Value {
    if v.is_null() { json!({}) } else { v.clone() }
}
fn err_is(v: &Value, ty: &str) -> bool {
    v["err"]["type"] == ty
}

fn run(rt: &tokio::runtime::Runtime, case: &PyCase, mode: Mode) -> RunResult {
    let mut info = CaseInfo::default();
    let scratch = Scratch::new();
    let dir = scratch.path().display().to_string();
    let file = fresh_db(scratch.path());
    let srv = rt.block_on(Server::start(&file, &SrvCfg { max_retries: 10, max_submissions: case.max_found, ..Default::default() }))?;
    std::fs::create_dir_all(format!("{dir}/store")).map_err(infra_err)?;
    let mut plan = serde_json::to_value(case).map_err(infra_err)?;
    plan["addr"] = json!(format!("127.0.0.1:{}", srv.port));
    plan["store"] = json!(format!("file://{dir}/store"));
    plan["patience"] = json!(if mode.slow { 30 } else { 8 });
    std::fs::write(format!("{dir}/case.json"), plan.to_string()).map_err(infra_err)?;

    let producer = Proc::start(&dir, &["producer"])?;
    match producer.wait_line("READY", Duration::from_secs(200)) {
        Ok(true) => {}
        Ok(false) => return fail("a call of the producer never returned while nobody worked", format!("{:?}", events(&dir, "events-producer").last())),
        Err(()) => return fail("the producer process ended", tail(&dir, "stderr-producer")),
    }
    // ---- what was seen while nobody worked
    let early = events(&dir, "events-producer");
    for (i, e) in case.early.iter().enumerate() {
        let Some(r) = early.iter().find(|v| v["ev"] == "early" && v["action"] == json!(i)).map(|v| &v["result"]) else {
            return infra("no result of an early action");
        };
        info.evals += 1;
        info.tag(format!("early-{}", e.early));
        judge_early(i, e, r, case.max_found)?;
    }
    let http = srv.http();
    // ---- the work
    let mut consumers: Vec<Proc> = vec![];
    for i in 0..case.consumers.len() {
        consumers.push(Proc::start(&dir, &["consumer", &i.to_string()])?);
    }
    let started = Instant::now();
    let mut kills: Vec<(usize, u64)> = case.consumers.iter().enumerate().filter_map(|(i, c)| c.kill.map(|k| (i, k))).collect();
    loop {
        match producer.wait_line("DONE", Duration::from_millis(50)) {
            Ok(true) => break,
            Ok(false) => {}
            Err(()) => return fail("the producer process ended", tail(&dir, "stderr-producer")),
        }
        let now = started.elapsed();
        kills.retain(|(i, k)| {
            if now < Duration::from_millis(*k) {
                return true;
            }
            info.tag("consumer-process-killed");
            let _ = consumers[*i].child.kill();
            let _ = consumers[*i].child.wait();
            match Proc::start(&dir, &["consumer", &i.to_string()]) {
                Ok(p) => consumers[*i] = p,
                Err(_) => info.tag("restart-failed"),
            }
            false
        });
        for (i, c) in consumers.iter_mut().enumerate() {
            if let Ok(Some(s)) = c.child.try_wait() {
                return fail("a consumer process ended by itself", format!("{s}: {}", tail(&dir, &format!("stderr-consumer-{i}"))));
            }
        }
        if now > Duration::from_secs(100) {
            let done: Vec<u64> = events(&dir, "events-producer").iter().filter(|v| v["ev"] == "action").filter_map(|v| v["action"].as_u64()).collect();
            let missing: Vec<String> = (0..case.actions.len()).filter(|i| !done.contains(&(*i as u64))).map(|i| format!("{} ({})", i, case.actions[i].how)).collect();
            let (_, left) = rt.block_on(http.get("/producer/submissions/count"))?;
            let open: Vec<(i64, i64, i64)> = rt.block_on(async {
                let mut c = open_reader(&file).await?;
                sqlx::query_as("SELECT submission_id, chunk_index, retries FROM chunks LIMIT 3").fetch_all(&mut c).await.map_err(infra_err)
            })?;
            let all = events(&dir, "events-consumer");
            let last: Vec<Option<&Value>> = open.iter().map(|(s, i, _)| all.iter().rfind(|v| v["id"] == json!(s) && v["index"] == json!(i))).collect();
            let odd: Vec<&Value> = all.iter().filter(|v| v["ev"] != "chunk").take(3).collect();
            // With everything ended at the server, only the client can be at fault.
            let judge: fn(String, String) -> _ = if left.to_string() == "0" { fail_sound } else { fail };
            return judge("a producer never learns how its submission ended".to_string(), format!("after 100 s, action(s) {missing:?} have not returned; {left} submissions are in progress, some open chunks: {open:?}, last given to {last:?}; consumer events: {odd:?}; before that: {:?}; all actions: {:?}", case.early.iter().map(|e| &e.early).collect::<Vec<_>>(), case.actions.iter().map(|a| (&a.how, a.wait, a.shared)).collect::<Vec<_>>()));
        }
    }
    drop(consumers);
    let prod = events(&dir, "events-producer");
    let cons = events(&dir, "events-consumer");
    for v in &cons {
        match v["ev"].as_str() {
            Some("crashed") => return fail(format!("a consumer's call ({}) raises {}", v["how"].as_str().unwrap_or("?"), v["error"]["type"].as_str().unwrap_or("?")), v.to_string()),
            Some("stopped") => return fail("a consumer stops although nothing told it to", v.to_string()),
            Some("toomany") => return fail("more chunks were reserved than asked for", v.to_string()),
            Some("left") => info.tag("consumer-left"),
            _ => {}
        }
    }
    // ---- how it ended
    let mut ids: BTreeMap<usize, u64> = BTreeMap::new();
    for v in &prod {
        if v["ev"] == "inserted" {
            ids.insert(v["action"].as_u64().unwrap_or(0) as usize, v["id"].as_u64().unwrap_or(0));
        }
    }
    let (mut multi, mut ended_badly) = (false, !case.early.is_empty());
    for (i, a) in case.actions.iter().enumerate() {
        let Some(r) = prod.iter().find(|v| v["ev"] == "action" && v["action"] == json!(i)).map(|v| &v["result"]) else {
            return infra("no result of an action");
        };
        info.evals += 1;
        info.tag(format!("action-{}", a.how));
        let what = format!("{} of {} operations in chunks of {} ({})", a.how, a.ops.len(), a.chunk_size, a.fmt);
        let size = a.chunk_size as usize;
        let chunks: Vec<&[Value]> = a.ops.chunks(size).collect();
        let bad: BTreeSet<usize> = chunks.iter().enumerate().filter(|(_, c)| c.iter().any(|o| special(o, "bad").is_some())).map(|(k, _)| k).collect();
        if bad.is_empty() {
            check!(r.get("ok") == Some(&expected(&a.ops)), "results are not the processed operations in order", "{what}: {}", differs(r, &expected(&a.ops)));
            multi |= chunks.len() > 1;
        } else {
            ended_badly = true;
            info.tag("submission-failed");
            check!(err_is(r, "SubmissionFailedError"), "a permanently failing operation does not surface as SubmissionFailedError", "{what}: {}", short(r));
            let e = &r["err"];
            let at = e["chunk_index"].as_u64().unwrap_or(u64::MAX) as usize;
            check!(bad.contains(&at) && e["failed_chunk_id"] == json!(at), "the failure names the wrong chunk", "{what}: {} but the failing ones are {bad:?}", short(r));
            let text = e["failure"].as_str().unwrap_or("");
            let told = chunks[at].iter().filter_map(|o| special(o, "bad")).any(|k| text.contains(&format!("bad-{k} ü")));
            check!(told || case.consumers.iter().any(|c| c.kill.is_some()), "the failure text is not what the consumer raised", "{what}: {}", short(r));
            check!(e["metadata"] == a.metadata && e["strategic"] == strategic_out(&a.strategic) && e["chunks_total"] == json!(chunks.len()), "a failed submission is described wrongly", "{what}: {}", short(r));
            if let Some(id) = ids.get(&i) {
                check!(e["submission_id"] == json!(id), "a failed submission is described wrongly", "{what}: id {id}, {}", short(r));
            }
        }
        // as stored
        if let Some(id) = ids.get(&i) {
            let s = rt.block_on(http.status(*id))?;
            let kind = if bad.is_empty() { "Completed" } else { "Failed" };
            let body = match (&s["Completed"], &s["Failed"]) {
                (b @ Value::Object(_), _) => b,
                (_, Value::Array(b)) => &b[0],
                _ => &Value::Null,
            };
            check!(s.get(kind).is_some() && body["chunks_total"] == json!(chunks.len()) && body["chunk_size"] == json!(a.chunk_size), "the submission is stored differently", "{what}: {s}");
            info.evals += 1;
            if let Some(x) = prod.iter().find(|v| v["ev"] == "after" && v["action"] == json!(i)) {
                info.evals += 3;
                let c = &x["cancel"]["err"];
                check!(err_is(&x["cancel"], "SubmissionNotCancellableError") && c["kind"].as_str().is_some_and(|k| k.contains(kind)) && c["submission_id"] == json!(id), "cancelling an ended submission is not reported as such", "{what}: {}", short(x));
                let st = &x["status"]["ok"];
                check!(st["kind"] == kind && st["id"] == json!(id) && st["chunks_total"] == json!(chunks.len()) && st["metadata"] == a.metadata && st["strategic"] == strategic_out(&a.strategic), "the status of an ended submission is wrong", "{what}: {}", short(x));
                if kind == "Failed" {
                    check!(c["chunk_index"] == r["err"]["chunk_index"] && c["failure"] == r["err"]["failure"] && st["chunk_index"] == c["chunk_index"] && st["failure"] == c["failure"], "the failure is described differently", "{what}: {} / {}", short(x), short(r));
                }
                check!(x["found"] == json!({"ok": []}), "a lookup finds an ended submission", "{what}: {}", short(x));
            }
            // what consumers were given
            for v in cons.iter().filter(|v| v["ev"] == "chunk" && v["id"] == json!(id)) {
                let k = v["index"].as_u64().unwrap_or(u64::MAX) as usize;
                info.evals += 1;
                check!(k < chunks.len() && v["ops"] == json!(chunks[k]), "a consumer was given other operations than the chunk holds", "{what}: {}", short(v));
                check!(v["prefix"] == body["prefix"], "a consumer was given another prefix", "{what}: {} instead of {}", v["prefix"], body["prefix"]);
                check!(v["metadata"] == a.metadata, "a consumer was given other metadata", "{what}: {} instead of {}", v["metadata"], a.metadata);
            }
        }
    }
    let left = rt.block_on(http.get("/producer/submissions/count"))?;
    check!(left == (200, json!(0)), "submissions are left over", "{left:?}");
    let retried = cons.iter().any(|v| v["ev"] == "chunk" && v["retries"] != json!(0));
    if retried {
        info.tag("chunk-retried");
    }
    for c in case.consumers.iter().flat_map(|c| &c.threads) {
        info.tag(format!("worker-{}", c.how));
    }
    info.nontrivial = multi && ended_badly;
    drop(producer);
    rt.block_on(srv.stop());
    Ok(info)
}

fn short(v: &Value) -> String {
    v.to_string().chars().take(900).collect()
}
fn differs(r: &Value, want: &Value) -> String {
    let (Some(a), Some(b)) = (r["ok"].as_array(), want.as_array()) else { return short(r) };
    let at = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i));
    format!("{} results for {} operations, first difference at {at:?}: {:?} instead of {:?}", a.len(), b.len(), at.and_then(|i| a.get(i)), at.and_then(|i| b.get(i)))
}

fn judge_early(i: usize, e: &Early, r: &Value, max: u64) -> Result<(), RunError> {
    let what = format!("{} of {} operations: {}", e.early, e.ops.len(), short(r));
    check!(r.get("raised").is_none(), "a call raises unexpectedly", "{what}");
    match e.early.as_str() {
        "unknown" => {
            check!(r["status"].is_null(), "an unknown submission has a status", "{what}");
            check!(err_is(&r["cancel"], "SubmissionNotFoundError") && r["cancel"]["err"]["id"] == json!(e.unknown), "cancelling an unknown submission does not raise SubmissionNotFoundError", "{what}");
            check!(r["stream"].get("hang").is_none(), "waiting for an unknown submission never returns", "{what}");
            for w in ["stream", "try"] {
                check!(err_is(&r[w], "SubmissionNotFoundError") && r[w]["err"]["id"] == json!(e.unknown), "waiting for an unknown submission does not raise SubmissionNotFoundError", "{what}");
            }
        }
        "broken" => {
            check!(r["insert"].get("err").is_some() && r["before"] == r["after"], "a broken iterator still makes a submission", "{what}");
        }
        "zero" => {
            check!(err_is(&r["insert"], "ChunkSizeIsZeroError") && r["before"] == r["after"], "an impossible chunk size is not refused", "{what}");
        }
        "interrupt-reserve" => {
            check!(r["reserve"]["err"]["type"] == "KeyboardInterrupt" || r["reserve"]["err"]["type"] == "late", "Ctrl-C while waiting for chunks is not raised", "{what}");
        }
        "lookup" => {
            let want = |ids: &Value| {
                let mut ids: Vec<u64> = ids.as_array().into_iter().flatten().filter_map(Value::as_u64).collect();
                ids.sort();
                ids
            };
            let all = want(&r["ids"]);
            for w in ["found", "both"] {
                if all.len() as u64 > max {
                    check!(err_is(&r[w], "TooManyMatchingSubmissionsError") && r[w]["err"]["max"] == json!(max), "a lookup with too many results does not raise TooManyMatchingSubmissionsError", "max {max}, {i}: {what}");
                } else {
                    check!(want(&r[w]["ok"]) == all, "a lookup by strategic metadata finds something else", "{what}");
                }
            }
            for w in ["other", "gone"] {
                check!(r[w] == json!({"ok": []}), "a lookup by strategic metadata finds something else", "{w}: {what}");
            }
            check!(r["cancel"].as_array().is_some_and(|c| c.iter().all(|c| *c == json!({"ok": null}))), "cancelling a submission in progress fails", "{what}");
        }
        _ => {
            let chunks = e.ops.len().div_ceil(e.chunk_size as usize);
            if e.early == "interrupt" {
                check!(r["stream"].get("err").is_some() && !r["stream"].to_string().contains("hang"), "waiting cannot be interrupted", "{what}");
            }
            let s = &r["status"];
            check!(s["kind"] == "InProgress" && s["id"] == r["id"] && s["chunks_total"] == json!(chunks) && s["chunks_done"] == json!(0) && s["metadata"] == e.metadata && s["strategic"] == strategic_out(&e.strategic), "the status of a fresh submission is wrong", "{what}");
            check!(r["prefixes"].as_array().is_some_and(|p| p.len() == 1), "a submission stores its chunks under more than one prefix", "{what}");
            check!(r["by-prefix"] == json!([{"ok": r["id"]}]) && r["no-prefix"] == json!({"ok": null}), "a submission is not found by its prefix", "{what}");
            if e.early == "async-timeout" {
                check!(r["timeout"] == json!({"ok": true}), "giving up an asynchronous wait does not work", "{what}");
            }
            if e.strategic.as_object().is_some_and(|m| !m.is_empty()) {
                check!(r["found"] == json!([r["id"]]), "a submission is not found by its strategic metadata", "{what}");
            }
            check!(err_is(&r["try"], "SubmissionNotCompletedYetError"), "an unfinished submission can be streamed", "{what}");
            check!(r["cancel"] == json!({"ok": null}), "cancelling a submission in progress fails", "{what}");
            check!(err_is(&r["again"], "SubmissionNotCancellableError") && r["again"]["err"]["submission_id"] == r["id"] && r["again"]["err"]["kind"].as_str().is_some_and(|k| k.contains("Cancelled")), "cancelling twice is not reported as such", "{what}");
            let s = &r["status-after"];
            check!(s["kind"] == "Cancelled" && s["id"] == r["id"] && s["chunks_total"] == json!(chunks) && s["metadata"] == e.metadata && s["strategic"] == strategic_out(&e.strategic), "the status of a cancelled submission is wrong", "{what}");
            for w in ["stream", "waited"] {
                check!(r[w].get("hang").is_none(), "waiting for a cancelled submission never returns", "{what}");
                if w == "stream" || matches!(e.early.as_str(), "cancel-waiting" | "cancel-async") {
                    check!(err_is(&r[w], "SubmissionCancelledError") && r[w]["err"]["submission_id"] == r["id"], "waiting for a cancelled submission does not raise SubmissionCancelledError", "{what}");
                }
            }
        }
    }
    Ok(())
}
