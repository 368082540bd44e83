//! Model-based histories against a whole running server, driven only through its network
//! interfaces by raw peers. One operation at a time; after each the driver waits until the
//! server has nothing left to do, so that every reply can be compared with the model.
use crate::dbm::{self, CLEANED};
use crate::engine::*;
use crate::model::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use sqlx::Row;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::Notify;

#[path = "metrics.rs"]
mod metrics;
use metrics::Totals;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strat {
    Oldest,
    Newest,
    Random,
    Prefer(String, Box<Strat>),
}
impl Strat {
    pub fn json(&self) -> Value {
        match self {
            Strat::Oldest => json!("Oldest"),
            Strat::Newest => json!("Newest"),
            Strat::Random => json!("Random"),
            Strat::Prefer(k, u) => json!({"PreferDistinct": {"meta_key": k, "underlying": u.json()}}),
        }
    }
    pub fn generate(rng: &mut Rng, keys: &[String], prefer: u64) -> Strat {
        let base = match rng.below(3) {
            0 => Strat::Oldest,
            1 => Strat::Newest,
            _ => Strat::Random,
        };
        if keys.is_empty() || !rng.chance(prefer, 10) {
            return base;
        }
        let mut s = if rng.chance(2, 3) { if rng.chance(1, 2) { Strat::Oldest } else { Strat::Newest } } else { base };
        for _ in 0..*rng.pick(&[1u64, 1, 1, 2, 2, 3, 4]) {
            let k = if rng.chance(1, 12) { "no-such-key".to_string() } else { rng.pick(keys).clone() };
            s = Strat::Prefer(k, Box::new(s));
        }
        s
    }
    pub fn kind(&self) -> String {
        match self {
            Strat::Prefer(_, u) => format!("prefer-{}", u.kind()),
            s => format!("{s:?}").to_lowercase(),
        }
    }
    /// Is `got` (submission ids in the order handed out) what this strategy promises, given the
    /// available chunks per submission and the in-flight count of a submission per key
    /// (None and zero both mean "nothing in flight")? Only the submission-level order is promised.
    pub fn check(&self, got: &[u64], avail: &BTreeMap<u64, usize>, limit: usize, count: &dyn Fn(u64, &str) -> u64) -> Result<(), String> {
        let total: usize = avail.values().sum();
        let want_len = total.min(limit);
        if got.len() != want_len {
            return Err(format!("{} chunks handed out, {} are due ({} available, limit {})", got.len(), want_len, total, limit));
        }
        let mut keys = vec![];
        let mut base = self;
        while let Strat::Prefer(k, u) = base {
            keys.push(k.as_str());
            base = u;
        }
        if keys.is_empty() && *base == Strat::Random {
            return Ok(());
        }
        let rank = |s: u64| -> (Vec<u64>, i128) {
            let c = keys.iter().map(|k| count(s, k)).collect();
            let tie = match base {
                Strat::Oldest => s as i128,
                Strat::Newest => -(s as i128),
                _ => 0,
            };
            (c, tie)
        };
        let mut order: Vec<((Vec<u64>, i128), usize)> = avail.iter().map(|(s, n)| (rank(*s), *n)).collect();
        order.sort();
        let want: Vec<_> = order.iter().flat_map(|(r, n)| std::iter::repeat_n(r.clone(), *n)).take(limit).collect();
        let have: Vec<_> = got.iter().map(|s| rank(*s)).collect();
        if have != want {
            return Err(format!("handed out submissions {got:?} with ranks {have:?}, due are ranks {want:?}; available {avail:?}"));
        }
        // submissions come out one after the other, each completely before the next
        let mut seen = BTreeSet::new();
        for (i, s) in got.iter().enumerate() {
            if i > 0 && got[i - 1] != *s && !seen.insert(*s) || i == 0 && !seen.insert(*s) {
                return Err(format!("submission {s} is handed out in two pieces: {got:?}"));
            }
        }
        for (s, n) in avail {
            let g = got.iter().filter(|x| *x == s).count();
            if g != 0 && g != *n && got.last() != Some(s) {
                return Err(format!("submission {s} was not handed out completely before the next: {got:?}"));
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Submit(SubSpec),
    Connect,
    Reserve { c: u32, max: u64, strat: Strat },
    Complete { c: u32, k: u32, out: Option<Vec<u8>> },
    Fail { c: u32, k: u32, text: String },
    /// A result for something that is not to be done (any more)
    Stale { c: u32, sub: u32, idx: u32, fail: bool, ghost: bool },
    /// A result from a consumer that lost the reservation by expiry
    Late { k: u32, fail: bool },
    Cancel { sub: u32 },
    Close { c: u32, how: u32 },
    Expire,
    /// `near`: look up a prefix that is nearly that of the submission
    Prefix { sub: u32, extra: Option<String>, #[serde(default)] near: Option<u32> },
    Meta { sub: u32, keep: u32, extra: BTreeMap<String, i64> },
    AbortSubmit { spec: SubSpec, us: u64 },
    Restart,
    /// Take everything that is available with a new consumer and compare (then return it)
    Probe { strat: Strat },
}
impl SOp {
    fn kind(&self) -> &'static str {
        match self {
            SOp::Submit(_) => "submit",
            SOp::Connect => "connect",
            SOp::Reserve { .. } => "reserve",
            SOp::Complete { .. } => "complete",
            SOp::Fail { .. } => "fail",
            SOp::Stale { .. } => "stale",
            SOp::Late { .. } => "late",
            SOp::Cancel { .. } => "cancel",
            SOp::Close { how: 0, .. } => "close-polite",
            SOp::Close { how: 1, .. } => "close-hard",
            SOp::Close { .. } => "silence",
            SOp::Expire => "expire",
            SOp::Prefix { .. } => "prefix",
            SOp::Meta { .. } => "meta",
            SOp::AbortSubmit { .. } => "abort-submit",
            SOp::Restart => "restart",
            SOp::Probe { .. } => "probe",
        }
    }
    /// The properties that a wrong effect of this operation speaks about
    fn props(&self) -> Vec<&'static str> {
        match self {
            SOp::Submit(_) => vec!["P01", "P10", "P26"],
            SOp::Complete { .. } => vec!["P02", "P03"],
            SOp::Fail { .. } => vec!["P04", "P08"],
            SOp::Stale { .. } => vec!["P02", "P05"],
            SOp::Late { .. } => vec!["P07", "P02"],
            SOp::Cancel { .. } => vec!["P06"],
            SOp::Close { .. } | SOp::Expire => vec!["P08"],
            SOp::Restart => vec!["P10"],
            _ => vec![],
        }
    }
}

fn default_readers() -> u32 {
    8
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    pub max_retries: u32,
    pub max_submissions: u64,
    /// milliseconds
    pub expiration: u64,
    pub heartbeat: u64,
    pub missable: u64,
    #[serde(default = "default_readers")]
    pub readers: u32,
    /// against the real server program, comparing its metrics at the end
    #[serde(default)]
    pub real: bool,
    pub ops: Vec<SOp>,
}

#[derive(Clone)]
pub struct SProfile {
    pub name: &'static str,
    pub rule: &'static str,
    //  sub con res com fail stale late can close exp pre meta abort restart probe
    pub w: [u64; 15],
    pub len: (u64, u64),
    pub spec: fn() -> SpecGen,
    pub prefer: u64,
    pub expiration: u64,
    pub silence: bool,
    pub real: bool,
    pub nontrivial: fn(&BTreeMap<String, u64>) -> bool,
}

/// Many submissions with many keys, some of their chunks being worked on, and deeply nested preferences
fn gen_ranking(p: &SProfile, rng: &mut Rng) -> SCase {
    let keys: Vec<String> = ["a", "A", "b", "_", "c", "a\0x", "a\0", "k'\"é"].iter().map(|k| k.to_string()).collect();
    let mut vals: Vec<i64> = match rng.below(3) {
        0 => (1..5).collect(),
        1 => vec![1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, -(1 << 53), (1 << 32) + 1],
        _ => vec![i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, 0, -1, 1],
    };
    rng.shuffle(&mut vals);
    vals.truncate(rng.range(1, 4) as usize);
    let present = *rng.pick(&[5u64, 8, 10]);
    let mut ops = vec![SOp::Connect, SOp::Connect];
    let submit = |rng: &mut Rng| {
        let strategic = keys.iter().filter(|_| rng.chance(present, 10)).map(|k| (k.clone(), 1i64)).collect::<Vec<_>>();
        let strategic = strategic.into_iter().map(|(k, _)| (k, *rng.pick(&vals))).collect();
        SOp::Submit(SubSpec { contents: Contents::Direct((0..rng.range(1, 3)).map(|_| Some(rng.bytes(3))).collect()), metadata: None, strategic, chunk_size: Some(1) })
    };
    let strat = |rng: &mut Rng, keys: &mut Vec<String>| {
        let mut s = rng.pick(&[Strat::Oldest, Strat::Newest, Strat::Random]).clone();
        rng.shuffle(keys.as_mut_slice());
        for k in keys.iter().take(rng.range(0, 6) as usize) {
            s = Strat::Prefer(k.clone(), Box::new(s));
        }
        s
    };
    let mut shuffled = keys.clone();
    let rounds = rng.range(2, 4);
    for _ in 0..rounds {
        for _ in 0..rng.range(3, 10) {
            let s = submit(rng);
            ops.push(s);
        }
        for _ in 0..rng.range(1, 4) {
            ops.push(SOp::Reserve { c: rng.below(2) as u32, max: *rng.pick(&[1u64, 1, 2, 3]), strat: strat(rng, &mut shuffled) });
        }
        if rng.chance(1, 2) {
            let (c, k) = (rng.below(2) as u32, rng.below(8) as u32);
            ops.push(if rng.chance(1, 2) { SOp::Complete { c, k, out: None } } else { SOp::Fail { c, k, text: "no".into() } });
        }
        for _ in 0..rng.range(1, 4) {
            ops.push(SOp::Probe { strat: strat(rng, &mut shuffled) });
        }
    }
    SCase { max_retries: 5, max_submissions: 100_000, expiration: p.expiration, heartbeat: 10_000, missable: 3, readers: *rng.pick(&[1, 2, 8]), real: false, ops }
}

/// One or two keys with tens or hundreds of values, most of which are being worked on
fn gen_many_values(p: &SProfile, rng: &mut Rng) -> SCase {
    let keys: Vec<String> = ["a", "b"].iter().take(rng.range(1, 2) as usize).map(|k| k.to_string()).collect();
    let from = if rng.chance(1, 3) { i64::MIN } else { -(rng.below(300) as i64) };
    let n = *rng.pick(&[12, 40, 70, 110, 140, 270]);
    let step = rng.range(1, 9) as i64;
    let mut ops = vec![SOp::Connect, SOp::Connect];
    let sub = |i: u64, rng: &mut Rng| {
        let mut strategic: BTreeMap<String, i64> = BTreeMap::new();
        for k in &keys {
            strategic.insert(k.clone(), from + step * (if k == "a" { i } else { rng.below(n) }) as i64);
        }
        SOp::Submit(SubSpec { contents: Contents::Direct(vec![None; 1 + rng.below(2) as usize]), metadata: None, strategic, chunk_size: Some(1) })
    };
    // all values, of which most get busy, and then most of them again, in another order
    for i in 0..n {
        ops.push(sub(i, rng));
    }
    ops.push(SOp::Reserve { c: 0, max: n * rng.range(6, 12) / 10, strat: rng.pick(&[Strat::Oldest, Strat::Newest, Strat::Random]).clone() });
    for _ in 0..n / 2 {
        let i = rng.below(n);
        ops.push(sub(i, rng));
    }
    for _ in 0..rng.range(2, 5) {
        let mut s = rng.pick(&[Strat::Oldest, Strat::Newest, Strat::Random]).clone();
        for k in keys.iter().take(rng.range(1, 2) as usize) {
            s = Strat::Prefer(k.clone(), Box::new(s));
        }
        ops.push(match rng.below(4) {
            0 => SOp::Fail { c: 0, k: rng.below(8) as u32, text: "no".into() },
            1 => SOp::Reserve { c: 1, max: rng.range(1, n), strat: s },
            _ => SOp::Probe { strat: s },
        });
    }
    SCase { max_retries: 5, max_submissions: 100_000, expiration: p.expiration, heartbeat: 10_000, missable: 3, readers: *rng.pick(&[1, 2, 8]), real: false, ops }
}

pub fn gen_scase(p: &SProfile, rng: &mut Rng) -> SCase {
    if p.name == "server-ranking" {
        if rng.chance(1, 10) {
            return gen_many_values(p, rng);
        }
        return gen_ranking(p, rng);
    }
    let spec = (p.spec)();
    let n = rng.range(p.len.0, p.len.1);
    let mut ops = vec![SOp::Connect];
    if rng.chance(4, 5) {
        ops.push(SOp::Submit(spec.spec(rng)));
    }
    for _ in 0..n {
        let c = rng.below(8) as u32;
        let k = rng.below(8) as u32;
        let sub = rng.below(16) as u32;
        ops.push(match rng.weighted(&p.w) {
            0 => SOp::Submit(spec.spec(rng)),
            1 => SOp::Connect,
            2 => SOp::Reserve { c, max: match rng.below(9) {
                0 => 0,
                k @ 1..8 => [1, 1, 1, 2, 2, 3, 5][k as usize - 1],
                _ => *rng.pick(&[50, 64, 1000, 100_000, 1 << 33]),
            }, strat: Strat::generate(rng, &spec.keys, p.prefer) },
            3 => SOp::Complete { c, k, out: if rng.chance(1, 2) { Some(rng.bytes(8)) } else { None } },
            4 => SOp::Fail { c, k, text: rng.string_edgy(5) },
            5 => SOp::Stale { c, sub, idx: k, fail: rng.chance(1, 2), ghost: rng.chance(1, 5) },
            6 => SOp::Late { k, fail: rng.chance(1, 2) },
            7 => SOp::Cancel { sub },
            8 => SOp::Close { c, how: if p.silence { *rng.pick(&[0u32, 1, 2, 2]) } else { rng.below(2) as u32 } },
            9 => SOp::Expire,
            10 => SOp::Prefix { sub, extra: if rng.chance(1, 5) { Some(spec.prefix(rng)) } else { None }, near: if rng.chance(1, 3) { Some(rng.below(256) as u32) } else { None } },
            11 => SOp::Meta { sub, keep: rng.below(16) as u32, extra: if rng.chance(1, 3) { spec.strategic(rng) } else { BTreeMap::new() } },
            12 => SOp::AbortSubmit { spec: spec.spec(rng), us: *rng.pick(&[0u64, 200, 500, 1000, 1500, 2000, 3000, 5000, 8000]) },
            13 => SOp::Restart,
            _ => SOp::Probe { strat: Strat::generate(rng, &spec.keys, p.prefer) },
        });
    }
    SCase {
        max_retries: *rng.pick(&[0u32, 1, 2, 3, 3, 5]),
        max_submissions: *rng.pick(&[1u64, 2, 3, 100_000]),
        expiration: p.expiration,
        heartbeat: if p.silence { 150 } else { 10_000 },
        missable: rng.below(4),
        readers: *rng.pick(&[1, 2, 8, 8, 16]),
        real: p.real,
        ops,
    }
}

struct Hold {
    c: usize,
    t_send: Instant,
    t_recv: Instant,
}
struct Pend {
    c: usize,
    nonce: u64,
    max: u64,
    strat: Strat,
    t_send: Instant,
}
type Key = (u64, u64);

struct Drv {
    cfg: SrvCfg,
    srv: Option<Server>,
    http: Http,
    db: sqlx::SqliteConnection,
    notify: Arc<Notify>,
    cons: Vec<Option<Raw>>,
    silent: Vec<Silent>,
    model: Vec<MSub>,
    holds: BTreeMap<Key, Hold>,
    /// reservations lost by expiry: consumer, chunk
    lost: Vec<(usize, Key)>,
    /// expiry notices that are still due
    due: Vec<(usize, Key)>,
    pending: Vec<Pend>,
    /// replies seen since the last quiescent point, for the exactness checks
    replies: u32,
    clock: u64,
    slow: bool,
    tags: BTreeMap<String, u64>,
    evals: u64,
    expiring: bool,
    /// since the server program started: what it had before, and the results that holders of a chunk sent
    before: Totals,
    held_done: u64,
    held_failed: u64,
}

const ALL_WORK: &[&str] = &["P08", "P26", "P01"];

impl Drv {
    fn tag(&mut self, s: impl Into<String>) {
        *self.tags.entry(s.into()).or_default() += 1;
    }
    fn deadline(&self) -> Duration {
        Duration::from_secs(if self.slow { 15 } else { 4 })
    }
    async fn rest(&self, fast_ms: u64, slow_ms: u64) {
        tokio::time::sleep(Duration::from_millis(if self.slow { slow_ms } else { fast_ms })).await;
    }
    fn sub(&mut self, id: u64) -> Option<&mut MSub> {
        self.model.iter_mut().find(|m| m.id == id)
    }
    fn available(&self) -> Vec<Key> {
        let mut out = vec![];
        for m in &self.model {
            for i in 0..m.chunks.len() as u64 {
                if m.is_pending(i) && !self.holds.contains_key(&(m.id, i)) {
                    out.push((m.id, i));
                }
            }
        }
        out
    }
    fn in_flight(&self, key: &str, val: i64) -> u64 {
        self.holds.keys().filter(|k| self.model.iter().find(|m| m.id == k.0).is_some_and(|m| m.spec.strategic.get(key) == Some(&val))).count() as u64
    }

    fn on_reply(&mut self, c: usize, nonce: u64, chunks: &[GotChunk], at: Instant) -> Result<(), RunError> {
        let Some(p) = self.pending.iter().position(|p| p.c == c && p.nonce == nonce) else {
            return fail_p(&["P09", "P18"], "a reply to a request that is not waiting", format!("consumer {c} nonce {nonce}: {chunks:?}"));
        };
        let solo = self.pending.len() == 1;
        let p = self.pending.remove(p);
        self.replies += 1;
        self.evals += 1;
        if chunks.len() as u64 > p.max {
            return fail_p_sound(&["P09"], "more chunks than asked for", format!("{} of {}", chunks.len(), p.max));
        }
        if chunks.is_empty() {
            return fail_p(&["P09"], "a request was answered without chunks", format!("consumer {c} nonce {nonce}"));
        }
        // what was available when it was answered, as far as the model knows
        let mut avail: BTreeMap<u64, usize> = BTreeMap::new();
        for k in self.available() {
            *avail.entry(k.0).or_default() += 1;
        }
        let mut uncertain = false;
        let counts: BTreeMap<(u64, String), u64> = {
            let mut keys = vec![];
            let mut s = &p.strat;
            while let Strat::Prefer(k, u) = s {
                keys.push(k.clone());
                s = u;
            }
            avail
                .keys()
                .flat_map(|id| keys.iter().map(move |k| (*id, k.clone())))
                .map(|(id, k)| {
                    let v = self.model.iter().find(|m| m.id == id).and_then(|m| m.spec.strategic.get(&k).copied());
                    let n = v.map(|v| self.in_flight(&k, v)).unwrap_or(0);
                    ((id, k), n)
                })
                .collect()
        };
        let mut got_subs = vec![];
        for g in chunks {
            self.evals += 1;
            let k = (g.sub, g.idx);
            let expiration = self.cfg.expiration;
            if let Some(h) = self.holds.get(&k) {
                if at < h.t_send + expiration {
                    return fail_p_sound(
                        &["P07"],
                        "a chunk was handed out while another reservation of it is alive",
                        format!("{k:?} handed to consumer {c}, held by consumer {} since {:?}", h.c, h.t_recv.elapsed()),
                    );
                }
                uncertain = true;
                let hc = h.c;
                self.holds.remove(&k);
                self.lose(hc, k);
            }
            let Some(m) = self.model.iter_mut().find(|m| m.id == g.sub) else {
                return fail_p(&["P01", "P03"], "a chunk of an unknown submission was handed out", format!("{g:?}"));
            };
            if !m.is_pending(g.idx) {
                let mut props = vec!["P01", "P26"];
                match (&m.state, m.chunks.get(g.idx as usize)) {
                    (MState::Cancelled, _) => props.push("P06"),
                    (MState::Failed(_), _) => props.push("P04"),
                    (_, Some(MChunk::Done { .. })) => props.extend(["P07", "P02"]),
                    _ => {}
                }
                return fail_p(&props, "a chunk that is not to be done was handed out", format!("{k:?}: submission {:?}, chunk {:?}", m.state, m.chunks.get(g.idx as usize)));
            }
            let want = json!({"submission_id": g.sub, "chunk_index": g.idx, "input_content": m.spec.chunk_contents()[g.idx as usize], "retries": m.retries(g.idx)});
            for f in ["input_content", "retries"] {
                if g.chunk[f] != want[f] {
                    return fail_p(if f == "retries" { &["P04", "P03"] } else { &["P03"] }, format!("a chunk was handed out with a wrong {f}"), format!("{k:?}: {}, required {}", g.chunk[f], want[f]));
                }
            }
            let s = &g.submission;
            for (f, w) in [
                ("id", json!(m.id)),
                ("prefix", json!(m.spec.prefix())),
                ("chunks_total", json!(m.chunks.len())),
                ("chunks_done", json!(m.done())),
                ("metadata", json!(m.spec.metadata)),
                ("strategic_metadata", json!(m.spec.strategic)),
                ("chunk_size", json!(m.spec.chunk_size.unwrap_or(1))),
            ] {
                if s[f] != w {
                    return fail_p(&["P03", "P13"], format!("a chunk was handed out with a wrong submission {f}"), format!("{k:?}: {}, required {w}", s[f]));
                }
            }
            if let Some(o) = &m.otel {
                if s["otel_trace_carrier"] != *o {
                    return fail_p(&["P21", "P13"], "a chunk was handed out with a wrong trace carrier", format!("{k:?}: {}, required {o}", s["otel_trace_carrier"]));
                }
            }
            if self.holds.contains_key(&k) {
                return fail_p_sound(&["P07"], "a chunk twice in one reply", format!("{k:?}"));
            }
            self.holds.insert(k, Hold { c, t_send: p.t_send.max(Instant::now() - Duration::from_secs(3600)), t_recv: at });
            got_subs.push(g.sub);
        }
        // a reply to a request that waited was reserved some time after it was sent
        if let Some(last) = self.holds.get_mut(&(chunks[0].sub, chunks[0].idx)) {
            let _ = last;
        }
        if solo && self.replies == 1 && !uncertain {
            self.evals += 1;
            self.tag(format!("exact-{}", p.strat.kind()));
            let distinct: BTreeSet<Vec<u64>> = {
                let mut by: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
                for ((id, _), n) in &counts {
                    by.entry(*id).or_default().push(*n);
                }
                by.into_values().collect()
            };
            if distinct.len() > 1 {
                self.tag("ranking-with-different-counts");
            }
            if avail.len() > 1 && (avail.values().sum::<usize>() as u64) > p.max {
                self.tag("choice-between-submissions");
            }
            let count = |s: u64, k: &str| counts.get(&(s, k.to_string())).copied().unwrap_or(0);
            if let Err(e) = p.strat.check(&got_subs, &avail, p.max as usize, &count) {
                let props: &[&'static str] = if got_subs.len() as u64 != p.max.min(avail.values().sum::<usize>() as u64) { &["P11", "P08", "P26"] } else if matches!(p.strat, Strat::Prefer(..)) { &["P11", "P12"] } else { &["P11"] };
                return fail_p(props, format!("{} handed out something else than it promises", p.strat.kind()), e);
            }
        }
        self.tag("reply");
        Ok(())
    }
    fn lose(&mut self, c: usize, k: Key) {
        self.lost.push((c, k));
        if self.cons[c].is_some() {
            self.due.push((c, k));
        }
    }
    fn on_expired(&mut self, c: usize, k: Key, at: Instant) -> Result<(), RunError> {
        if let Some(i) = self.due.iter().position(|d| *d == (c, k)) {
            self.due.remove(i);
            self.tag("expiry-notice");
            return Ok(());
        }
        match self.holds.get(&k) {
            Some(h) if h.c == c => {
                if at < h.t_send + self.cfg.expiration {
                    return fail_p_sound(&["P07", "P08"], "a reservation expired before its time", format!("{k:?} of consumer {c} after {:?}", at - h.t_send));
                }
                self.holds.remove(&k);
                self.lost.push((c, k));
                self.tag("expiry-notice");
                Ok(())
            }
            // a completed chunk keeps its place for a moment and may then expire
            _ if self.expiring => Ok(()),
            _ => fail_p(&["P08"], "an expiry notice for a chunk the consumer does not hold", format!("{k:?} to consumer {c}")),
        }
    }

    fn drain(&mut self) -> Result<(), RunError> {
        for c in 0..self.cons.len() {
            loop {
                let Some(r) = &self.cons[c] else { break };
                let Some(g) = r.pop() else {
                    if r.closed() {
                        return fail_p(&["P19", "P26", "P08", "P09"], "the server closed a well-behaved consumer's connection", format!("consumer {c}"));
                    }
                    break;
                };
                match parse(&g.msg) {
                    Parsed::Reserved { nonce, chunks } => self.on_reply(c, nonce, &chunks, g.at)?,
                    Parsed::Refused { nonce, err } => match self.pending.iter().position(|p| p.c == c && p.nonce == nonce) {
                        Some(i) if self.pending[i].max == 0 => {
                            self.pending.remove(i);
                            self.tag("zero-refused");
                        }
                        _ => return fail_p(&["P09", "P19"], "a proper request was refused", format!("consumer {c} nonce {nonce}: {err}")),
                    },
                    Parsed::Expired { sub, idx } => self.on_expired(c, (sub, idx), g.at)?,
                    Parsed::Other(v) => return fail_p(&["P18"], "an unreadable message from the server", format!("{v}")),
                }
            }
        }
        Ok(())
    }

    /// Wait until no request waits while there is work, and no refusal or expiry notice is due.
    async fn settle(&mut self, why: &SOp) -> Result<(), RunError> {
        let mut end = tokio::time::Instant::now() + self.deadline();
        let mut extended = false;
        loop {
            let notify = self.notify.clone();
            let n = notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            self.drain()?;
            let zero = self.pending.iter().any(|p| p.max == 0);
            let waiting = self.pending.iter().any(|p| p.max > 0);
            let avail = self.available();
            if !zero && self.due.is_empty() && (!waiting || avail.is_empty()) {
                break;
            }
            if tokio::time::timeout_at(end, n).await.is_err() {
                if !extended {
                    // rule out a slow machine: wait much longer before calling it stuck
                    extended = true;
                    end += Duration::from_secs(10);
                    continue;
                }
                self.drain()?;
                let avail = self.available();
                if self.pending.iter().any(|p| p.max == 0) {
                    return fail_p(&["P19", "P09"], "a request for zero chunks got no answer", "");
                }
                if !self.pending.is_empty() && !avail.is_empty() {
                    return self.stuck(why, avail).await;
                }
                if !self.due.is_empty() {
                    return fail_p(&["P08"], "a consumer was not told that its reservation expired", format!("{:?}", self.due));
                }
                break;
            }
        }
        self.replies = 0;
        Ok(())
    }

    /// A request waits although chunks are available: find out whether only the waiting one is
    /// forgotten, or whether nobody can get the chunk.
    async fn stuck(&mut self, why: &SOp, avail: Vec<Key>) -> Result<(), RunError> {
        let port = self.srv.as_ref().unwrap().port;
        let mut probe = Raw::connect(port, Arc::new(Notify::new())).await?;
        probe.reserve(10_000, &json!("Oldest")).await;
        let got = probe.recv(Duration::from_secs(3)).await;
        let what = format!("after {}: {} chunks available ({:?}...), {} requests waiting; a new consumer got {}", why.kind(), avail.len(), avail[0], self.pending.len(), got.is_some());
        probe.drop_hard().await;
        if got.is_some() {
            let mut props = vec!["P09"];
            props.extend(why.props().iter().filter(|p| ["P10"].contains(*p)));
            fail_p_sound(&props, "a request waits while there is work for it", what)
        } else {
            let mut props = ALL_WORK.to_vec();
            props.extend(["P09", "P11"]);
            props.extend(why.props());
            fail_p(&props, "available chunks are handed to nobody", what)
        }
    }

    async fn check_sub(&mut self, op: &SOp, i: usize) -> Result<(), RunError> {
        let asked = chrono::Utc::now();
        let got = self.http.status(self.model[i].id).await?;
        match self.model[i].check_status_at(&got, asked) {
            Ok(n) => {
                self.evals += n;
                Ok(())
            }
            Err((mut props, sig, msg)) => {
                if props.contains(&"P01") {
                    props.extend(op.props());
                }
                fail_p(&props, sig, format!("after {}: {msg}", op.kind()))
            }
        }
    }
    /// Poll until the status of a submission is what the model says.
    async fn await_sub(&mut self, op: &SOp, i: usize) -> Result<(), RunError> {
        let end = Instant::now() + self.deadline();
        loop {
            let r = self.check_sub(op, i).await;
            match r {
                Err(RunError::Violation(_)) if Instant::now() < end => tokio::time::sleep(Duration::from_millis(2)).await,
                r => return r,
            }
        }
    }
    async fn await_retries(&mut self, op: &SOp, k: Key, want: u64) -> Result<(), RunError> {
        let end = Instant::now() + self.deadline();
        loop {
            let r = sqlx::query("SELECT retries FROM chunks WHERE submission_id = ? AND chunk_index = ?").bind(k.0 as i64).bind(k.1 as i64).fetch_optional(&mut self.db).await.map_err(infra_err)?;
            let got = r.map(|r| r.get::<i64, _>(0) as u64);
            if got == Some(want) {
                return Ok(());
            }
            if Instant::now() > end || got.is_none_or(|g| g > want) {
                return fail_p(&["P04"], "wrong retry count after a failure", format!("{}: {k:?}: {got:?}, required {want}", op.kind()));
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    }

    fn pick_con(&self, c: u32) -> Option<usize> {
        let live: Vec<usize> = (0..self.cons.len()).filter(|i| self.cons[*i].is_some()).collect();
        if live.is_empty() { None } else { Some(live[c as usize % live.len()]) }
    }
    /// A chunk held by somebody: prefers consumer `c`
    fn pick_hold(&self, c: u32, k: u32) -> Option<(usize, Key)> {
        let c = self.pick_con(c)?;
        let mut mine: Vec<Key> = self.holds.iter().filter(|(_, h)| h.c == c).map(|(k, _)| *k).collect();
        if mine.is_empty() {
            mine = self.holds.keys().copied().collect();
        }
        if mine.is_empty() {
            return None;
        }
        let key = mine[k as usize % mine.len()];
        Some((self.holds[&key].c, key))
    }
    fn forget_con(&mut self, c: usize) {
        self.pending.retain(|p| p.c != c);
        self.holds.retain(|_, h| h.c != c);
        self.due.retain(|d| d.0 != c);
    }

    /// Let time pass until every reservation that could expire soon has certainly expired.
    async fn pass_expiry(&mut self, op: &SOp, all: bool) -> Result<(), RunError> {
        if !self.expiring {
            return Ok(());
        }
        loop {
            let now = Instant::now();
            let e = self.cfg.expiration;
            let soon: Vec<Key> = self.holds.iter().filter(|(_, h)| all || now + Duration::from_millis(350) > h.t_send + e).map(|(k, _)| *k).collect();
            if soon.is_empty() {
                return Ok(());
            }
            let until = soon.iter().map(|k| self.holds[k].t_recv + e + Duration::from_millis(120)).max().unwrap();
            if until > now {
                tokio::time::sleep(until - now).await;
            }
            self.drain()?;
            for k in soon {
                if let Some(h) = self.holds.get(&k) {
                    // not handed to somebody else in the meantime
                    if Instant::now() > h.t_recv + e + Duration::from_millis(100) {
                        let c = h.c;
                        self.holds.remove(&k);
                        self.lose(c, k);
                    }
                }
            }
            self.replies = 1; // replies around an expiry are not exact
            self.tag("expired");
            self.settle(op).await?;
            if !all {
                continue;
            }
            return Ok(());
        }
    }

    async fn start_server(&mut self) -> Result<(), RunError> {
        let file = self.srv.as_ref().map(|s| s.file.clone()).unwrap();
        let s = self.srv.take().unwrap();
        s.stop().await;
        let s = Server::start(&file, &self.cfg).await?;
        self.http = s.http();
        self.srv = Some(s);
        Ok(())
    }

    async fn apply(&mut self, op: &SOp) -> Result<(), RunError> {
        self.clock += 1;
        self.pass_expiry(op, false).await?;
        self.replies = 0;
        match op {
            SOp::Submit(spec) => {
                // the model must know the submission before replies about it are read
                let id = self.http.submit(&spec.to_json()).await?;
                if let Some(last) = self.model.iter().map(|m| m.id).max() {
                    if id <= last {
                        return fail_p(&["P17"], "submission id not larger than an earlier one", format!("{id} after {last}"));
                    }
                }
                self.model.push(MSub::new(id, spec.clone(), self.clock));
                if !self.pending.is_empty() {
                    self.tag("submit-while-waiting");
                }
                let i = self.model.len() - 1;
                self.settle(op).await?;
                self.check_sub(op, i).await?;
            }
            SOp::Connect => {
                if self.cons.iter().flatten().count() < 4 {
                    let mut r = Raw::connect(self.srv.as_ref().unwrap().port, self.notify.clone()).await?;
                    // a consumer numbers its requests as it likes
                    r.next_nonce = [0, u32::MAX as u64 - 1, (1 << 53) + 1, i64::MAX as u64 - 2, u64::MAX - 1_000_000][self.cons.len() % 5];
                    self.cons.push(Some(r));
                }
            }
            SOp::Reserve { c, max, strat } => {
                let Some(c) = self.pick_con(*c) else { return Ok(()) };
                let r = self.cons[c].as_mut().unwrap();
                let t_send = Instant::now();
                let nonce = r.reserve(*max, &strat.json()).await;
                self.pending.push(Pend { c, nonce, max: *max, strat: strat.clone(), t_send });
                self.settle(op).await?;
                if self.pending.iter().any(|p| p.c == c && p.nonce == nonce) {
                    self.tag("request-waits");
                }
            }
            SOp::Complete { c, k, out } => {
                let Some((c, key)) = self.pick_hold(*c, *k) else { return Ok(()) };
                self.cons[c].as_mut().unwrap().complete(key, out).await;
                self.holds.remove(&key);
                self.held_done += 1;
                let clock = self.clock;
                let m = self.sub(key.0).unwrap();
                let applied = m.complete(key.1, out.clone(), clock);
                let i = self.model.iter().position(|m| m.id == key.0).unwrap();
                if applied {
                    self.tag("complete-applied");
                    self.await_sub(op, i).await?;
                    self.rest(6, 150).await;
                } else {
                    self.tag("complete-void");
                    self.rest(10, 200).await;
                    self.check_sub(op, i).await?;
                }
                self.settle(op).await?;
            }
            SOp::Fail { c, k, text } => {
                let Some((c, key)) = self.pick_hold(*c, *k) else { return Ok(()) };
                self.cons[c].as_mut().unwrap().fail(key, text).await;
                self.holds.remove(&key);
                self.held_failed += 1;
                let (clock, max) = (self.clock, self.cfg.max_retries as u64);
                let m = self.sub(key.0).unwrap();
                let applied = m.fail(key.1, text, max, clock);
                let retry = applied && m.state == MState::InProgress;
                let want = m.retries(key.1);
                let i = self.model.iter().position(|m| m.id == key.0).unwrap();
                if retry {
                    self.tag("retried");
                    self.await_retries_or_reply(op, key, want).await?;
                    self.rest(6, 150).await;
                } else if applied {
                    self.tag("failed-permanently");
                    self.await_sub(op, i).await?;
                    self.rest(6, 150).await;
                } else {
                    self.tag("fail-void");
                    self.rest(10, 200).await;
                    self.check_sub(op, i).await?;
                }
                self.settle(op).await?;
            }
            SOp::Stale { c, sub, idx, fail, ghost } => {
                let Some(c) = self.pick_con(*c) else { return Ok(()) };
                let key = if *ghost || self.model.is_empty() {
                    (if *idx % 2 == 0 { 1 } else { (1 << 63) - 1 }, *idx as u64)
                } else {
                    let m = &self.model[*sub as usize % self.model.len()];
                    let n = m.chunks.len() as u64 + 1;
                    let i = (0..n).map(|d| (*idx as u64 + d) % n).find(|i| !m.is_pending(*i) && !self.holds.contains_key(&(m.id, *i)));
                    let Some(i) = i else { return Ok(()) };
                    (m.id, i)
                };
                let r = self.cons[c].as_mut().unwrap();
                if *fail {
                    r.fail(key, "stale").await;
                } else {
                    r.complete(key, &Some(vec![9])).await;
                }
                self.tag("stale-result");
                self.rest(8, 150).await;
                self.settle(op).await?;
            }
            SOp::Late { k, fail } => {
                let cand: Vec<(usize, Key)> = self.lost.iter().filter(|(c, _)| self.cons[*c].is_some()).copied().collect();
                if cand.is_empty() {
                    return Ok(());
                }
                let (c, key) = cand[*k as usize % cand.len()];
                if self.holds.get(&key).is_some_and(|h| h.c == c) {
                    return Ok(());
                }
                let held_by_other = self.holds.contains_key(&key);
                let r = self.cons[c].as_mut().unwrap();
                if *fail {
                    r.fail(key, "late").await;
                } else {
                    r.complete(key, &Some(vec![7])).await;
                }
                self.tag(if held_by_other { "late-result-while-held-by-other" } else { "late-result" });
                // Whether a late result counts is left open; see what happened to the chunk.
                self.rest(30, 300).await;
                self.adopt(key, *fail).await?;
                self.settle(op).await?;
            }
            SOp::Cancel { sub } => {
                if self.model.is_empty() {
                    return Ok(());
                }
                let i = *sub as usize % self.model.len();
                let (code, body) = self.http.cancel(self.model[i].id).await?;
                let clock = self.clock;
                let was = self.model[i].state.name();
                let held = self.holds.keys().any(|k| k.0 == self.model[i].id);
                let ok = self.model[i].cancel(clock);
                let want = if ok { 200 } else { 409 };
                if code != want {
                    return fail_p(&["P06"], format!("cancelling a submission that is {was} was answered with {code}"), format!("{body}"));
                }
                if !ok {
                    // the answer names the state it is in
                    let kind = body.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
                    if kind != was {
                        return fail_p(&["P06"], "a refused cancel names the wrong state", format!("{body}, required {was}"));
                    }
                }
                self.tag(if ok && held { "cancel-while-held" } else if ok { "cancel" } else { "cancel-ended" });
                self.settle(op).await?;
                self.check_sub(op, i).await?;
                let (code, _) = self.http.cancel(12345).await?;
                if code != 404 {
                    return fail_p(&["P06"], format!("cancelling an unknown submission was answered with {code}"), "");
                }
            }
            SOp::Close { c, how } => {
                let Some(c) = self.pick_con(*c) else { return Ok(()) };
                let r = self.cons[c].take().unwrap();
                if self.holds.values().any(|h| h.c == c) {
                    self.tag(format!("{}-while-holding", op.kind()));
                }
                match how {
                    0 => r.close().await,
                    1 => r.drop_hard().await,
                    _ => {
                        self.silent.push(r.silence());
                        // requests of the silent one may have been answered already; forget them
                        self.pending.retain(|p| p.c != c);
                        let ms = self.cfg.heartbeat.as_millis() as u64 * (self.cfg.missable as u64 + 3) + 250;
                        let extra = if self.slow { 1000 } else { 0 };
                        let end = Instant::now() + Duration::from_millis(ms + extra);
                        // while it dies others may get its chunks at any moment
                        self.forget_con(c);
                        while Instant::now() < end {
                            self.replies = 1;
                            self.drain()?;
                            tokio::time::sleep(Duration::from_millis(20)).await;
                        }
                        self.replies = 1;
                        self.settle(op).await?;
                        return Ok(());
                    }
                }
                self.forget_con(c);
                // a waiting request may be answered after the first of several chunks is back
                self.replies = 1;
                self.rest(25, 300).await;
                self.settle(op).await?;
            }
            SOp::Expire => self.pass_expiry(op, true).await?,
            SOp::Prefix { sub, extra, near } => {
                let p = match extra {
                    Some(p) => p.clone(),
                    None if self.model.is_empty() => return Ok(()),
                    None => self.model[*sub as usize % self.model.len()].spec.prefix().unwrap_or("nothing-has-this".into()),
                };
                let p = near.map(|n| near_prefix(&p, n)).unwrap_or(p);
                if p.is_empty() || p == "." || p == ".." {
                    return Ok(());
                }
                let (code, body) = self.http.prefix(&p).await?;
                let ids: Vec<u64> = self.model.iter().filter(|m| m.spec.prefix().as_deref() == Some(&p)).map(|m| m.id).collect();
                let ok = code == 200 && match body.as_u64() {
                    Some(id) => ids.contains(&id),
                    None => body.is_null() && ids.is_empty(),
                };
                self.evals += 1;
                if !ok {
                    return fail_p(&["P14"], "a prefix lookup gave a wrong answer", format!("{p:?}: {code} {body}, submissions {ids:?}"));
                }
                self.tag(if ids.is_empty() { "prefix-miss" } else { "prefix-hit" });
            }
            SOp::Meta { sub, keep, extra } => {
                let mut q: BTreeMap<String, i64> = if self.model.is_empty() { BTreeMap::new() } else { self.model[*sub as usize % self.model.len()].spec.strategic.clone() };
                let mut bit = 0;
                q.retain(|_, _| {
                    bit += 1;
                    keep >> (bit % 4) & 1 == 0
                });
                q.extend(extra.clone());
                let (code, body) = self.http.meta(&json!(q)).await?;
                let want: Vec<u64> = self.model.iter().filter(|m| m.state == MState::InProgress && q.iter().all(|(k, v)| m.spec.strategic.get(k) == Some(v))).map(|m| m.id).collect();
                self.evals += 1;
                let limit = self.cfg.max_submissions;
                if want.len() as u64 > limit {
                    if code != 400 || body != json!(limit) {
                        return fail_p(&["P15"], "too many matches are not reported as such", format!("{} matches, limit {limit}: {code} {body}", want.len()));
                    }
                    self.tag("meta-too-many");
                } else {
                    if code != 200 || body != json!(want) {
                        return fail_p(&["P15"], "a metadata lookup gave a wrong answer", format!("{q:?}: {code} {body}, required {want:?}"));
                    }
                    self.tag(if want.is_empty() { "meta-miss" } else { "meta-hit" });
                }
            }
            SOp::AbortSubmit { spec, us } => {
                self.abort_submit(op, spec, *us).await?;
            }
            SOp::Restart => {
                for c in 0..self.cons.len() {
                    self.forget_con(c);
                    if let Some(r) = self.cons[c].take() {
                        r.drop_hard().await;
                    }
                }
                self.lost.clear();
                self.start_server().await?;
                (self.held_done, self.held_failed) = (0, 0);
                self.cons.push(Some(Raw::connect(self.srv.as_ref().unwrap().port, self.notify.clone()).await?));
                for i in 0..self.model.len() {
                    self.check_sub(op, i).await?;
                }
                self.before = Totals::of(&self.model);
                self.tag("restart");
            }
            SOp::Probe { strat } => {
                if !self.pending.is_empty() {
                    return Ok(());
                }
                let avail = self.available();
                if avail.is_empty() {
                    return Ok(());
                }
                let r = Raw::connect(self.srv.as_ref().unwrap().port, self.notify.clone()).await?;
                self.cons.push(Some(r));
                let c = self.cons.len() - 1;
                let t_send = Instant::now();
                let nonce = self.cons[c].as_mut().unwrap().reserve(100_000, &strat.json()).await;
                self.pending.push(Pend { c, nonce, max: 100_000, strat: strat.clone(), t_send });
                self.settle(op).await?;
                self.tag("probe");
                self.cons[c].take().unwrap().close().await;
                self.forget_con(c);
                self.rest(25, 300).await;
            }
        }
        Ok(())
    }

    /// Poll the retry count, but a waiting request may take the chunk at once (which is fine).
    async fn await_retries_or_reply(&mut self, op: &SOp, k: Key, want: u64) -> Result<(), RunError> {
        self.await_retries(op, k, want).await
    }

    /// After a late result: take over what the server made of it.
    async fn adopt(&mut self, key: Key, fail: bool) -> Result<(), RunError> {
        let Some(i) = self.model.iter().position(|m| m.id == key.0) else { return Ok(()) };
        if !self.model[i].is_pending(key.1) {
            return Ok(());
        }
        let clock = self.clock;
        let mut alt = self.model[i].clone();
        if fail {
            alt.fail(key.1, "late", self.cfg.max_retries as u64, clock);
        } else {
            alt.complete(key.1, Some(vec![7]), clock);
        }
        let retries: Option<i64> = sqlx::query("SELECT retries FROM chunks WHERE submission_id = ? AND chunk_index = ?").bind(key.0 as i64).bind(key.1 as i64).fetch_optional(&mut self.db).await.map_err(infra_err)?.map(|r| r.get(0));
        let had = self.model[i].retries(key.1) as i64;
        let effective = retries != Some(had);
        if effective {
            self.model[i] = alt;
            self.tag("late-result-counted");
        }
        Ok(())
    }

    async fn abort_submit(&mut self, op: &SOp, spec: &SubSpec, us: u64) -> Result<(), RunError> {
        use tokio::io::AsyncWriteExt;
        let body = spec.to_json().to_string();
        let mut s = tokio::net::TcpStream::connect(("127.0.0.1", self.srv.as_ref().unwrap().port)).await.map_err(infra_err)?;
        let _ = s.set_nodelay(true);
        let req = format!("POST /producer/submissions HTTP/1.1\r\nhost: x\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", body.len(), body);
        s.write_all(req.as_bytes()).await.map_err(infra_err)?;
        tokio::time::sleep(Duration::from_micros(us)).await;
        drop(s);
        let max = self.model.iter().map(|m| m.id).max().unwrap_or(0);
        // wait until it is settled whether it happened
        let mut id = None;
        for _ in 0..if self.slow { 30 } else { 8 } {
            tokio::time::sleep(Duration::from_millis(10)).await;
            let r = sqlx::query("SELECT id FROM submissions WHERE id > ? UNION ALL SELECT id FROM submissions_completed WHERE id > ?").bind(max as i64).bind(max as i64).fetch_optional(&mut self.db).await.map_err(infra_err)?;
            if let Some(r) = r {
                id = Some(r.get::<i64, _>(0) as u64);
                break;
            }
        }
        match id {
            None => self.tag("aborted-submit-did-not-happen"),
            Some(id) => {
                if !self.pending.is_empty() {
                    self.tag("aborted-submit-while-waiting");
                }
                self.tag("aborted-submit-happened");
                self.model.push(MSub::new(id, spec.clone(), self.clock));
                let i = self.model.len() - 1;
                self.check_sub(op, i).await?;
            }
        }
        self.settle(op).await
    }
}

pub struct SrvHistory(pub SProfile);
impl Prop for SrvHistory {
    type Case = SCase;
    fn name(&self) -> &'static str {
        self.0.name
    }
    fn rule(&self) -> &'static str {
        self.0.rule
    }
    fn threads(&self) -> usize {
        if self.0.real { 32 } else { 16 }
    }
    fn generate(&self, rng: &mut Rng, _index: u64, _tier: Tier) -> SCase {
        gen_scase(&self.0, rng)
    }
    fn shrink(&self, case: &SCase) -> Vec<SCase> {
        shrink_vec(&case.ops).into_iter().map(|ops| SCase { ops, ..case.clone() }).collect()
    }
    fn run(&self, case: &SCase, mode: Mode) -> RunResult {
        let dir = Scratch::new();
        let rt = rt();
        let r = rt.block_on(run_scase(case, mode, &dir, None));
        rt.shutdown_background();
        r.map(|(tags, evals)| CaseInfo { nontrivial: (self.0.nontrivial)(&tags), evals, tags })
    }
}

/// The database before and after an operation that wrote something
pub struct Step {
    pub op: usize,
    pub main: Vec<u8>,
    pub wal: (Vec<u8>, Vec<u8>),
    pub dump: (Vec<String>, Vec<String>),
}
#[derive(Default)]
pub struct Record {
    pub steps: Vec<Step>,
}

pub async fn run_scase(case: &SCase, mode: Mode, dir: &Scratch, mut record: Option<&mut Record>) -> Result<(BTreeMap<String, u64>, u64), RunError> {
    CLEANED.with(|c| c.set(0));
    let cfg = SrvCfg {
        expiration: Duration::from_millis(case.expiration),
        heartbeat: Duration::from_millis(case.heartbeat),
        missable: case.missable as usize,
        max_retries: case.max_retries,
        max_submissions: case.max_submissions,
        readers: case.readers,
        checkpoint: record.is_none(),
        real: case.real,
    };
    let file = fresh_db(dir.path());
    let srv = Server::start(&file, &cfg).await?;
    let _ = dir;
    let db = srv.reader().await?;
    let mut d = Drv {
        http: srv.http(),
        expiring: case.expiration < 60_000,
        cfg,
        srv: Some(srv),
        db,
        notify: Arc::new(Notify::new()),
        cons: vec![],
        silent: vec![],
        model: vec![],
        holds: BTreeMap::new(),
        lost: vec![],
        due: vec![],
        pending: vec![],
        replies: 0,
        clock: 0,
        slow: mode.slow,
        tags: BTreeMap::new(),
        evals: 0,
        before: Totals::default(),
        held_done: 0,
        held_failed: 0,
    };
    for (n, op) in case.ops.iter().enumerate() {
        heartbeat();
        let read = |ext: &str| std::fs::read(format!("{file}{ext}")).unwrap_or_default();
        let before = if record.is_some() { Some((read(""), read("-wal"), crate::real::dump(&file).await?)) } else { None };
        d.apply(op).await?;
        d.tag(format!("op:{}", op.kind()));
        if let (Some(r), Some((main, wal, dump))) = (record.as_deref_mut(), before) {
            let after = read("-wal");
            if after != wal {
                r.steps.push(Step { op: n, main, wal: (wal, after), dump: (dump, crate::real::dump(&file).await?) });
            }
        }
    }
    let last = SOp::Connect;
    d.pass_expiry(&last, false).await?;
    d.rest(5, 150).await;
    for i in 0..d.model.len() {
        d.check_sub(&last, i).await?;
    }
    let counts = (
        d.model.iter().filter(|m| m.state == MState::InProgress).count(),
        d.model.iter().filter(|m| m.state == MState::Completed).count(),
    );
    for (path, want) in [("/producer/submissions/count", counts.0), ("/producer/submissions/count_completed", counts.1)] {
        let (code, v) = d.http.get(path).await?;
        if code != 200 || v != json!(want) {
            return fail_p(&["P01", "P02"], "a count of submissions is wrong", format!("{path}: {code} {v}, required {want}"));
        }
    }
    if case.real {
        d.check_metrics().await?;
    }
    let mut model = std::mem::take(&mut d.model);
    match dbm::audit(&mut d.db, &mut model).await {
        Ok(n) => d.evals += n,
        Err((props, sig, msg)) => return fail_p(&props, sig, format!("at the end: {msg}")),
    }
    for m in &model {
        d.tag(format!("end:{}", m.state.name()));
    }
    Ok((d.tags, d.evals))
}
