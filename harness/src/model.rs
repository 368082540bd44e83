//! Reference model of the queue, written from the documented behaviour: what a submission, its
//! chunks and its status must be after a history of operations. Shared by all drivers.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Contents {
    Direct(Vec<Option<Vec<u8>>>),
    /// Many direct chunks, generated from a seed (keeps replay files small)
    Bulk { n: u64, seed: u64 },
    Stored { prefix: String, count: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SubSpec {
    pub contents: Contents,
    pub metadata: Option<Vec<u8>>,
    pub strategic: BTreeMap<String, i64>,
    pub chunk_size: Option<i64>,
}

impl SubSpec {
    pub fn chunk_contents(&self) -> Vec<Option<Vec<u8>>> {
        match &self.contents {
            Contents::Direct(v) => v.clone(),
            Contents::Bulk { n, seed } => (0..*n).map(|i| Some(format!("b{seed}-{i}").into_bytes())).collect(),
            Contents::Stored { count, .. } => vec![None; *count as usize],
        }
    }
    pub fn prefix(&self) -> Option<String> {
        match &self.contents {
            Contents::Stored { prefix, .. } => Some(prefix.clone()),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        match &self.contents {
            Contents::Direct(v) => v.len(),
            Contents::Bulk { n, .. } => *n as usize,
            Contents::Stored { count, .. } => *count as usize,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// The JSON body of the documented submission request.
    pub fn to_json(&self) -> Value {
        let cc = match &self.contents {
            Contents::Stored { prefix, count } => json!({"SeeObjectStorage": {"prefix": prefix, "count": count}}),
            _ => json!({"Direct": {"contents": self.chunk_contents()}}),
        };
        json!({"chunk_contents": cc, "metadata": self.metadata, "strategic_metadata": self.strategic, "chunk_size": self.chunk_size})
    }
}

/// A prefix that is nearly, but not quite, `p`
pub fn near_prefix(p: &str, n: u32) -> String {
    let flip = |c: char| if c.is_lowercase() { c.to_uppercase().collect::<String>() } else { c.to_lowercase().collect() };
    let chars: Vec<char> = p.chars().collect();
    let at = n as usize / 16 % chars.len().max(1);
    let with = |t: &str| chars.iter().enumerate().map(|(i, c)| if i == at { t.to_string() } else { c.to_string() }).collect::<String>();
    match n % 16 {
        0 => p.chars().map(flip).collect(),
        1 => chars.iter().enumerate().map(|(i, c)| if i == at { flip(*c) } else { c.to_string() }).collect(),
        2 => with("_"),
        3 => with("%"),
        4 => with("?"),
        5 => with("*"),
        6 => format!("{}%", chars.iter().take(at).collect::<String>()),
        7 => format!("{}*", chars.iter().take(at).collect::<String>()),
        8 => format!("{p} "),
        9 => format!(" {p}"),
        10 => format!("{p}\0"),
        11 => chars.iter().take(chars.len().saturating_sub(1)).collect(),
        12 => chars.iter().skip(1).collect(),
        13 => format!("{p}/"),
        14 => with(""),
        _ => p.replace('/', "//"),
    }
}

pub struct SpecGen {
    pub max_chunks: u64,
    pub zero: u64,
    pub bulk: u64,
    pub stored: u64,
    pub edgy: bool,
    pub prefixes: Vec<String>,
    pub keys: Vec<String>,
    pub vals: Vec<i64>,
}
impl Default for SpecGen {
    fn default() -> Self {
        SpecGen {
            max_chunks: 5,
            zero: 1,
            bulk: 0,
            stored: 5,
            edgy: true,
            prefixes: vec![],
            keys: vec!["company_id".into(), "project".into(), "k'\"é".into()],
            vals: vec![0, 1, 2, -1, i64::MAX, i64::MIN],
        }
    }
}
impl SpecGen {
    pub fn spec(&self, rng: &mut Rng) -> SubSpec {
        let n = rng.range(1, self.max_chunks);
        let contents = match rng.weighted(&[self.zero, self.bulk, self.stored, 10]) {
            0 => {
                if rng.chance(1, 2) {
                    Contents::Direct(vec![])
                } else {
                    Contents::Stored { prefix: self.prefix(rng), count: 0 }
                }
            }
            1 => {
                let base = *rng.pick(&[999u64, 1000, 1001, 2000, 2001, 1500, 3001]);
                Contents::Bulk { n: base, seed: rng.below(1000) }
            }
            2 => Contents::Stored { prefix: self.prefix(rng), count: n },
            _ => Contents::Direct(
                (0..n)
                    .map(|_| match rng.below(8) {
                        0 => None,
                        1 => Some(vec![]),
                        2 => Some(vec![0, 255, 0, 128]),
                        _ => Some(rng.bytes(12)),
                    })
                    .collect(),
            ),
        };
        SubSpec {
            contents,
            metadata: match rng.below(4) {
                0 => None,
                1 => Some(vec![]),
                _ => Some(rng.bytes(20)),
            },
            strategic: self.strategic(rng),
            chunk_size: match rng.below(5) {
                0 => None,
                1 => Some(rng.i64_edgy()),
                _ => Some(rng.range(1, 5000) as i64),
            },
        }
    }
    pub fn prefix(&self, rng: &mut Rng) -> String {
        if !self.prefixes.is_empty() && rng.chance(2, 3) {
            return rng.pick(&self.prefixes).clone();
        }
        if self.edgy && rng.chance(1, 3) { format!("p{}", rng.string_edgy(6)) } else { format!("{}/{}", rng.ident(4), rng.below(1 << 40)) }
    }
    pub fn strategic(&self, rng: &mut Rng) -> BTreeMap<String, i64> {
        let mut m = BTreeMap::new();
        if self.keys.is_empty() {
            return m;
        }
        for k in &self.keys {
            if rng.chance(1, 2) {
                let v = if self.edgy && rng.chance(1, 6) { rng.i64_edgy() } else { *rng.pick(&self.vals) };
                m.insert(k.clone(), v);
            }
        }
        if self.edgy && rng.chance(1, 8) {
            m.insert(rng.string_edgy(5), rng.i64_edgy());
        }
        m
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MChunk {
    Pending { retries: u64 },
    Done { output: Option<Vec<u8>>, at: u64 },
    Failed { text: String },
    Skipped,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MState {
    InProgress,
    Completed,
    Failed(u64),
    Cancelled,
}
impl MState {
    pub fn name(&self) -> &'static str {
        match self {
            MState::InProgress => "InProgress",
            MState::Completed => "Completed",
            MState::Failed(_) => "Failed",
            MState::Cancelled => "Cancelled",
        }
    }
}

#[derive(Clone, Debug)]
pub struct MSub {
    pub id: u64,
    pub spec: SubSpec,
    pub chunks: Vec<MChunk>,
    pub state: MState,
    /// Logical time of the terminal transition
    pub ended: u64,
    pub removed: bool,
    /// First seen values of fields the model does not predict
    pub otel: Option<Value>,
    pub ended_at: Option<Value>,
    /// It had not ended yet at this (wall-clock) time
    pub alive: chrono::DateTime<chrono::Utc>,
    /// how often one of its chunks was given another chance
    pub retried: u64,
}

impl MSub {
    pub fn new(id: u64, spec: SubSpec, now: u64) -> MSub {
        let n = spec.len();
        MSub {
            id,
            chunks: vec![MChunk::Pending { retries: 0 }; n],
            state: if n == 0 { MState::Completed } else { MState::InProgress },
            spec,
            ended: now,
            removed: false,
            otel: None,
            ended_at: None,
            alive: chrono::Utc::now() - chrono::Duration::seconds(600),
            retried: 0,
        }
    }
    pub fn done(&self) -> u64 {
        self.chunks.iter().filter(|c| matches!(c, MChunk::Done { .. })).count() as u64
    }
    pub fn is_pending(&self, i: u64) -> bool {
        self.state == MState::InProgress && matches!(self.chunks.get(i as usize), Some(MChunk::Pending { .. }))
    }
    pub fn retries(&self, i: u64) -> u64 {
        match self.chunks.get(i as usize) {
            Some(MChunk::Pending { retries }) => *retries,
            _ => 0,
        }
    }
    /// Returns whether anything changed.
    pub fn complete(&mut self, i: u64, output: Option<Vec<u8>>, now: u64) -> bool {
        if !self.is_pending(i) {
            return false;
        }
        self.chunks[i as usize] = MChunk::Done { output, at: now };
        if self.done() == self.chunks.len() as u64 {
            self.state = MState::Completed;
            self.ended = now;
        }
        true
    }
    pub fn fail(&mut self, i: u64, text: &str, max_retries: u64, now: u64) -> bool {
        if !self.is_pending(i) {
            return false;
        }
        let r = self.retries(i) + 1;
        if r >= max_retries {
            self.chunks[i as usize] = MChunk::Failed { text: text.into() };
            self.skip();
            self.state = MState::Failed(i);
            self.ended = now;
        } else {
            self.chunks[i as usize] = MChunk::Pending { retries: r };
            self.retried += 1;
        }
        true
    }
    pub fn cancel(&mut self, now: u64) -> bool {
        if self.state != MState::InProgress {
            return false;
        }
        self.skip();
        self.state = MState::Cancelled;
        self.ended = now;
        true
    }
    fn skip(&mut self) {
        for c in &mut self.chunks {
            if matches!(c, MChunk::Pending { .. }) {
                *c = MChunk::Skipped;
            }
        }
    }

    /// Compare an observed status (documented JSON form) with the model.
    /// `Err((props, sig, msg))` names the properties the difference speaks about.
    /// `asked`: a time before the status was read, on the same clock the server uses.
    pub fn check_status_at(&mut self, got: &Value, asked: chrono::DateTime<chrono::Utc>) -> Result<u64, (Vec<&'static str>, String, String)> {
        let r = self.check_status(got);
        if r.is_ok() && got.get("InProgress").is_some() {
            self.alive = self.alive.max(asked);
        }
        r
    }
    pub fn check_status(&mut self, got: &Value) -> Result<u64, (Vec<&'static str>, String, String)> {
        let mut evals = 1;
        if self.removed {
            if !got.is_null() {
                return Err((vec!["P16"], "removed submission still has a status".into(), format!("{}: {got}", self.id)));
            }
            return Ok(1);
        }
        let want = self.state.name();
        let (name, body) = match got.as_object().and_then(|o| o.iter().next()) {
            Some((k, v)) => (k.as_str(), v),
            None => ("null", &Value::Null),
        };
        if name != want {
            let mut props = vec!["P01"];
            props.push(match (want, name) {
                ("Completed", _) | (_, "Completed") => "P02",
                _ => "P04",
            });
            if want == "Cancelled" || name == "Cancelled" {
                props.push("P06");
            }
            if want == "Failed" || name == "Failed" {
                props.push("P04");
            }
            if want != "InProgress" {
                props.push("P05");
            }
            return Err((props, format!("status is {name} where {want} is required"), format!("submission {}: got {got}, model {:?}", self.id, self.state)));
        }
        let (main, chunk) = if want == "Failed" { (&body[0], &body[1]) } else { (body, &Value::Null) };
        let mut want_fields: Vec<(&str, Value, Vec<&'static str>)> = vec![
            ("id", json!(self.id), vec!["P13"]),
            ("prefix", json!(self.spec.prefix()), vec!["P13", "P03"]),
            ("chunks_total", json!(self.chunks.len()), vec!["P13", "P01"]),
            ("metadata", json!(self.spec.metadata), vec!["P13", "P03"]),
            ("strategic_metadata", json!(self.spec.strategic), vec!["P13", "P03"]),
        ];
        if want != "Completed" {
            want_fields.push(("chunks_done", json!(self.done()), vec!["P01", "P02", "P13"]));
        }
        if want != "Cancelled" {
            want_fields.push(("chunk_size", json!(self.spec.chunk_size.unwrap_or(1)), vec!["P13"]));
        }
        if let MState::Failed(i) = self.state {
            want_fields.push(("failed_chunk_id", json!(i), vec!["P04"]));
        }
        for (f, w, props) in want_fields {
            evals += 1;
            let g = &main[f];
            if *g != w {
                return Err((props, format!("{want} status has a wrong {f}"), format!("submission {}: {f} is {g}, required {w}", self.id)));
            }
        }
        if let MState::Failed(i) = self.state {
            let text = match &self.chunks[i as usize] {
                MChunk::Failed { text } => text.clone(),
                other => unreachable!("{other:?}"),
            };
            for (f, w) in [
                ("submission_id", json!(self.id)),
                ("chunk_index", json!(i)),
                ("failure", json!(text)),
                ("input_content", json!(self.spec.chunk_contents()[i as usize])),
            ] {
                evals += 1;
                if chunk[f] != w {
                    return Err((vec!["P04", "P03", "P13"], format!("failed chunk has a wrong {f}"), format!("submission {} chunk {i}: {} is {}, required {w}", self.id, f, chunk[f])));
                }
            }
        }
        if want != "Cancelled" {
            let g = main["otel_trace_carrier"].clone();
            match &self.otel {
                None => self.otel = Some(g),
                Some(o) if *o == g => {}
                Some(o) => return Err((vec!["P13", "P21"], format!("{want} status has a different trace carrier"), format!("submission {}: {g}, earlier {o}", self.id))),
            }
        }
        let tf = match want {
            "Completed" => Some("completed_at"),
            "Failed" => Some("failed_at"),
            "Cancelled" => Some("cancelled_at"),
            _ => None,
        };
        if let Some(tf) = tf {
            evals += 1;
            let mut times = vec![(tf, main[tf].clone())];
            if want == "Failed" {
                times.push(("failed_at of the chunk", chunk["failed_at"].clone()));
            }
            match &self.ended_at {
                None => {
                    // it ended after it was last seen alive and before now (stored with milliseconds)
                    let slack = chrono::Duration::milliseconds(20);
                    let now = chrono::Utc::now();
                    for (f, g) in &times {
                        let ok = g.as_str().and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok()).is_some_and(|t| self.alive - slack <= t && t <= now + slack);
                        if !ok {
                            return Err((vec!["P13"], format!("{f} is not the time of the transition"), format!("submission {}: {g} is not between {} and {now}", self.id, self.alive)));
                        }
                    }
                    self.ended_at = Some(json!(times))
                }
                Some(o) if *o == json!(times) => {}
                Some(o) => return Err((vec!["P05", "P13"], format!("{tf} changed after the submission ended"), format!("submission {}: {times:?}, earlier {o}", self.id))),
            }
        }
        Ok(evals)
    }
}
