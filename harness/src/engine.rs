use crate::rng::Rng;
use serde::{Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// How a case is (re-)executed. `slow` asks the driver to use generous settling times; it is
/// how a suspected failure of a timing-sensitive driver is confirmed.
#[derive(Clone, Copy, Debug)]
pub struct Mode {
    pub slow: bool,
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// Stable signature: what failed, without case-specific numbers (for known findings).
    pub sig: String,
    pub msg: String,
    /// The oracle needs no timing assumption: report even if a re-run does not fail.
    pub sound: bool,
    /// The properties this failure speaks about; empty = whichever check is running. A check
    /// discards (and counts) cases that diverged because of another property.
    pub props: Vec<&'static str>,
}

#[derive(Debug, Clone)]
pub enum RunError {
    Violation(Failure),
    /// Problem of the harness or the environment; never a violation.
    Infra(String),
}

pub type RunResult = Result<CaseInfo, RunError>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, RunError> {
    Err(RunError::Violation(Failure { sig: sig.into(), msg: msg.into(), sound: false, props: vec![] }))
}
pub fn fail_sound<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, RunError> {
    Err(RunError::Violation(Failure { sig: sig.into(), msg: msg.into(), sound: true, props: vec![] }))
}
/// A failure that speaks about the given properties only.
pub fn fail_p<T>(props: &[&'static str], sig: impl Into<String>, msg: impl Into<String>) -> Result<T, RunError> {
    Err(RunError::Violation(Failure { sig: sig.into(), msg: msg.into(), sound: false, props: props.to_vec() }))
}
pub fn fail_p_sound<T>(props: &[&'static str], sig: impl Into<String>, msg: impl Into<String>) -> Result<T, RunError> {
    Err(RunError::Violation(Failure { sig: sig.into(), msg: msg.into(), sound: true, props: props.to_vec() }))
}
pub fn infra<T>(msg: impl std::fmt::Display) -> Result<T, RunError> {
    Err(RunError::Infra(msg.to_string()))
}
pub fn infra_err(msg: impl std::fmt::Display) -> RunError {
    RunError::Infra(msg.to_string())
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

#[derive(Debug, Clone, Default)]
pub struct CaseInfo {
    pub nontrivial: bool,
    /// Number of individual oracle evaluations in this case
    pub evals: u64,
    /// Distribution labels
    pub tags: BTreeMap<String, u64>,
}
impl CaseInfo {
    pub fn tag(&mut self, t: impl Into<String>) {
        *self.tags.entry(t.into()).or_default() += 1;
    }
    pub fn tag_n(&mut self, t: impl Into<String>, n: u64) {
        *self.tags.entry(t.into()).or_default() += n;
    }
}

pub trait Prop: Sync {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    /// Name of this part of a check (a property may be decided by several parts)
    fn name(&self) -> &'static str;
    /// Rule for a non-trivial case
    fn rule(&self) -> &'static str;
    fn generate(&self, rng: &mut Rng, index: u64, tier: Tier) -> Self::Case;
    fn run(&self, case: &Self::Case, mode: Mode) -> RunResult;
    fn shrink(&self, _case: &Self::Case) -> Vec<Self::Case> {
        vec![]
    }
    fn threads(&self) -> usize {
        8
    }
}

/// Candidates for shrinking a vector: drop halves, quarters, ..., single elements.
pub fn shrink_vec<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len();
    let mut size = n / 2;
    while size >= 1 {
        let mut start = 0;
        while start < n {
            let end = (start + size).min(n);
            let mut w = v[..start].to_vec();
            w.extend_from_slice(&v[end..]);
            out.push(w);
            start = end;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    if n == 1 {
        out.push(vec![]);
    }
    out
}

#[derive(serde::Deserialize, Clone, Debug)]
struct KnownFinding {
    property: String,
    #[serde(default)]
    signature: Option<String>,
    #[serde(default)]
    what: String,
}

pub struct Part {
    name: String,
    cases: u64,
    evals: u64,
    nontrivial: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    rule: String,
    unconfirmed: Vec<String>,
    wall: f64,
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    level: &'static str,
    start: Instant,
    parts: Vec<Part>,
    violations: Vec<(String, String)>,
    known_hit: Vec<String>,
    known: Vec<KnownFinding>,
    infra: Vec<String>,
    replay: Option<serde_json::Value>,
    replayed: bool,
    assumptions: Vec<String>,
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

impl Check {
    /// Parse the command line: `<bin> <ID> [quick|thorough] [--replay FILE]`
    pub fn from_args(level: &'static str) -> Check {
        let mut args = std::env::args().skip(1);
        let id = args.next().expect("usage: <bin> ID [tier] [--replay FILE]");
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut replay = None;
        while let Some(a) = args.next() {
            match a.as_str() {
                "quick" => tier = Tier::Quick,
                "thorough" => tier = Tier::Thorough,
                "--replay" => {
                    let p = args.next().expect("--replay FILE");
                    let v: serde_json::Value =
                        serde_json::from_slice(&std::fs::read(&p).expect("replay file")).expect("replay json");
                    replay = Some(v);
                }
                other => panic!("unknown argument {other}"),
            }
        }
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let known = std::fs::read(verif_dir().join("known_findings.json"))
            .ok()
            .map(|b| serde_json::from_slice::<Vec<KnownFinding>>(&b).expect("known_findings.json is valid"))
            .unwrap_or_default();
        install_panic_hook();
        start_watchdog(tier);
        Check {
            id,
            tier,
            seed,
            level,
            start: Instant::now(),
            parts: vec![],
            violations: vec![],
            known_hit: vec![],
            known,
            infra: vec![],
            replay,
            replayed: false,
            assumptions: vec![],
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let base = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((base as f64 * f) as u64).max(1),
            None => base,
        }
    }

    fn concerns(&self, f: &Failure) -> bool {
        f.props.is_empty() || f.props.iter().any(|p| *p == self.id)
    }

    fn known_for(&self, f: &Failure) -> Option<&KnownFinding> {
        self.known
            .iter()
            .find(|k| k.property == self.id && k.signature.as_deref() == Some(f.sig.as_str()))
    }

    /// Run `count` generated cases of `prop` (or the replay case, if it belongs to this part).
    pub fn run<P: Prop>(&mut self, prop: &P, count: u64) {
        // a broken tree can make the other parts slow: the first failure is enough
        if self.tier == Tier::Quick && !self.violations.is_empty() && self.start.elapsed() > Duration::from_secs(120) {
            println!("part {} skipped after a violation", prop.name());
            return;
        }
        if let Some(r) = &self.replay {
            if r["part"] == prop.name() {
                let case: P::Case = serde_json::from_value(r["case"].clone()).expect("replay case decodes");
                self.replayed = true;
                for i in 0..5 {
                    match guarded(prop, &case, Mode { slow: i > 0 }) {
                        Ok(_) => println!("replay run {i}: property held"),
                        Err(RunError::Violation(f)) if !self.concerns(&f) => {
                            println!("replay run {i}: diverged on another property: [{}] {}", f.sig, f.msg);
                        }
                        Err(RunError::Violation(f)) => {
                            println!("replay run {i}: [{}] {}", f.sig, f.msg);
                            self.violations.push(("(replayed)".into(), f.msg));
                            return;
                        }
                        Err(RunError::Infra(m)) => {
                            println!("replay run {i}: infra error: {m}");
                        }
                    }
                }
            }
            return;
        }
        if let Ok(only) = std::env::var("VERIF_PART") {
            if only != prop.name() {
                return;
            }
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        struct Acc<C> {
            part: Part,
            failures: Vec<(u64, C, Failure)>,
            infra: Vec<String>,
            known_hit: HashSet<String>,
        }
        let acc = Mutex::new(Acc {
            part: Part {
                name: prop.name().into(),
                cases: 0,
                evals: 0,
                nontrivial: HashSet::new(),
                tags: BTreeMap::new(),
                samples: vec![],
                rule: prop.rule().into(),
                unconfirmed: vec![],
                wall: 0.0,
            },
            failures: vec![],
            infra: vec![],
            known_hit: HashSet::new(),
        });
        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
                prop.threads().min((cores * prop.threads() / 8).max(1))
            });
        let this = &*self;
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= count {
                            break;
                        }
                        let mut rng = Rng::derive(this.seed, &format!("{}/{}", this.id, prop.name()), i);
                        let case = prop.generate(&mut rng, i, this.tier);
                        heartbeat();
                        let mut res = guarded(prop, &case, Mode { slow: false });
                        if let Err(RunError::Infra(_)) = &res {
                            // one retry: infrastructure hiccups (ports, fds) must not decide anything
                            std::thread::sleep(Duration::from_millis(300));
                            res = guarded(prop, &case, Mode { slow: true });
                        }
                        let mut a = acc.lock().unwrap();
                        a.part.cases += 1;
                        match res {
                            Ok(info) => {
                                a.part.evals += info.evals.max(1);
                                for (k, v) in &info.tags {
                                    *a.part.tags.entry(k.clone()).or_default() += v;
                                }
                                if info.nontrivial {
                                    let js = serde_json::to_value(&case).unwrap();
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    js.to_string().hash(&mut h);
                                    a.part.nontrivial.insert(h.finish());
                                    if a.part.samples.len() < 3 {
                                        a.part.samples.push(abbreviate(&js));
                                    }
                                }
                            }
                            Err(RunError::Violation(f)) if !this.concerns(&f) => {
                                *a.part.tags.entry(format!("discarded: diverged on {}: {}", f.props.join("/"), f.sig)).or_default() += 1;
                            }
                            Err(RunError::Violation(f)) => {
                                if this.known_for(&f).is_some() {
                                    a.known_hit.insert(f.sig.clone());
                                } else {
                                    a.failures.push((i, case, f));
                                    // Stop early: one confirmed failure decides. Collect a few
                                    // candidates in case the first is not confirmed.
                                    if a.failures.len() >= 3 {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                            Err(RunError::Infra(m)) => {
                                a.infra.push(m);
                                if a.infra.len() > 20 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                });
            }
        });
        let Acc { mut part, mut failures, infra, known_hit } = acc.into_inner().unwrap();
        part.wall = t0.elapsed().as_secs_f64();
        failures.sort_by_key(|f| f.0);
        for sig in known_hit {
            self.known_hit.push(sig);
        }
        // an isolated infra failure among many good cases is tolerated; many are not
        if infra.len() as u64 > (part.cases / 50).max(2) {
            self.infra.push(format!("{}: {} infra errors, e.g. {}", prop.name(), infra.len(), infra[0]));
        } else if let Some(m) = infra.first() {
            part.unconfirmed.push(format!("infra: {m}"));
        }
        for (i, case, f) in failures {
            heartbeat();
            let mut confirmed = f.sound.then(|| f.clone());
            if confirmed.is_none() {
                for k in 0..3 {
                    match guarded(prop, &case, Mode { slow: true }) {
                        Err(RunError::Violation(f2)) if self.concerns(&f2) => {
                            confirmed = Some(f2);
                            break;
                        }
                        Err(RunError::Infra(m)) if k == 2 => part.unconfirmed.push(format!("infra on confirm: {m}")),
                        _ => {}
                    }
                }
            }
            let Some(f) = confirmed else {
                eprintln!("unconfirmed (not reported): {} case {i}: [{}] {}", prop.name(), f.sig, f.msg);
                part.unconfirmed.push(format!("case {i}: [{}] {}", f.sig, f.msg));
                continue;
            };
            if self.known_for(&f).is_some() {
                self.known_hit.push(f.sig.clone());
                continue;
            }
            let (case, f) = shrink_case(prop, case, f);
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}-{}.json", self.id, prop.name(), self.seed, i));
            let js = serde_json::json!({
                "property": self.id, "part": prop.name(), "signature": f.sig, "message": f.msg,
                "seed": self.seed, "index": i, "case": case,
            });
            let _ = std::fs::write(&path, serde_json::to_vec_pretty(&js).unwrap());
            println!("failure in {}: [{}] {}", prop.name(), f.sig, f.msg);
            self.violations.push((path.display().to_string(), format!("[{}] {}", f.sig, f.msg)));
            break;
        }
        self.parts.push(part);
    }

    /// Write evidence, print the verdict, exit.
    pub fn finish(self) -> ! {
        if self.replay.is_some() {
            if !self.replayed {
                println!("replay file does not belong to any part of this check");
                std::process::exit(2);
            }
            exit_now(if self.violations.is_empty() { 0 } else { 1 });
        }
        let evaluations: u64 = self.parts.iter().map(|p| p.evals).sum();
        let cases: u64 = self.parts.iter().map(|p| p.cases).sum();
        let nontrivial: u64 = self.parts.iter().map(|p| p.nontrivial.len() as u64).sum();
        let rule = self.parts.iter().map(|p| format!("{}: {}", p.name, p.rule)).collect::<Vec<_>>().join(" | ");
        let samples: Vec<_> = self.parts.iter().flat_map(|p| p.samples.iter().cloned().map(|s| serde_json::json!({"part": p.name, "case": s}))).collect();
        let parts: Vec<_> = self
            .parts
            .iter()
            .map(|p| serde_json::json!({"name": p.name, "cases": p.cases, "oracle_evaluations": p.evals, "distinct_nontrivial": p.nontrivial.len(), "distribution": p.tags, "unconfirmed": p.unconfirmed, "wall_s": p.wall}))
            .collect();
        let ev = serde_json::json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": rule,
                "samples": samples,
                "cases": cases,
                "parts": parts,
                "failures": self.violations.iter().map(|(p, m)| serde_json::json!({"replay": p, "what": m})).collect::<Vec<_>>(),
            },
            "wall_s": self.start.elapsed().as_secs_f64(),
            "assumptions": self.assumptions,
            "violations": self.violations.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
        for p in &self.parts {
            println!(
                "{} part {}: {} cases, {} oracle evaluations, {} distinct non-trivial, {:.1}s",
                self.id, p.name, p.cases, p.evals, p.nontrivial.len(), p.wall
            );
        }
        let mut seen = HashSet::new();
        for sig in &self.known_hit {
            if seen.insert(sig.clone()) {
                let what = self
                    .known
                    .iter()
                    .find(|k| k.property == self.id && k.signature.as_deref() == Some(sig))
                    .map(|k| k.what.clone())
                    .unwrap_or_default();
                println!("KNOWN-FINDING: property={} {} ({})", self.id, sig, what);
            }
        }
        if !self.violations.is_empty() {
            for (path, m) in &self.violations {
                println!("{m}");
                println!("VIOLATION property={} replay={}", self.id, path);
            }
            exit_now(1);
        }
        if !self.infra.is_empty() {
            for m in &self.infra {
                println!("ERROR: {m}");
            }
            exit_now(2);
        }
        println!("OK property={} held on everything explored", self.id);
        exit_now(0)
    }
}

fn exit_now(code: i32) -> ! {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    crate::util::cleanup_scratch();
    // skip destructors of background runtimes
    std::process::exit(code)
}

fn abbreviate(v: &serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        serde_json::Value::String(format!("{}… ({} bytes)", &s[..end], s.len()))
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Panics raised in opsqueue's own code, anywhere in the process.
static REPO_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn repo_panics() -> Vec<String> {
    REPO_PANICS.lock().unwrap().clone()
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let text = format!("{loc}: {msg}");
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("panic at {text}");
        }
        if loc.contains("/repo/opsqueue/src") || loc.starts_with("opsqueue/src") {
            REPO_PANICS.lock().unwrap().push(text.clone());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

fn guarded<P: Prop>(prop: &P, case: &P::Case, mode: Mode) -> RunResult {
    match catch_unwind(AssertUnwindSafe(|| prop.run(case, mode))) {
        Ok(r) => r,
        Err(_) => {
            let text = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if text.contains("/repo/") {
                let sig = format!("panic at {}", text.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or(""));
                fail(sig, format!("the code under test panicked: {text}"))
            } else {
                infra(format!("harness panic: {text}"))
            }
        }
    }
}

fn shrink_case<P: Prop>(prop: &P, mut case: P::Case, mut f: Failure) -> (P::Case, Failure) {
    let deadline = Instant::now() + Duration::from_secs(
        std::env::var("VERIF_SHRINK_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(45));
    let mut runs = 0;
    'outer: loop {
        for cand in prop.shrink(&case) {
            if Instant::now() > deadline || runs > 400 {
                break 'outer;
            }
            runs += 1;
            heartbeat();
            if let Err(RunError::Violation(f2)) = guarded(prop, &cand, Mode { slow: false }) {
                if f2.sig == f.sig {
                    // shrunk steps must be repeatable unless the oracle is sound on its own
                    if f2.sound || matches!(guarded(prop, &cand, Mode { slow: true }), Err(RunError::Violation(_))) {
                        case = cand;
                        f = f2;
                        continue 'outer;
                    }
                }
            }
        }
        break;
    }
    (case, f)
}

static LAST_BEAT: AtomicU64 = AtomicU64::new(0);
fn now_s() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}
pub fn heartbeat() {
    LAST_BEAT.store(now_s(), Ordering::Relaxed);
}
/// A check that makes no progress at all is an error (exit 3), never a violation.
fn start_watchdog(tier: Tier) {
    heartbeat();
    let limit = match tier {
        Tier::Quick => 300,
        Tier::Thorough => 1200,
    };
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_secs(5));
            if now_s().saturating_sub(LAST_BEAT.load(Ordering::Relaxed)) > limit {
                println!("ERROR: watchdog: no progress for {limit} s");
                exit_now(3);
            }
        }
    });
}
