//! P21: trace contexts, through their text forms and through the real server program.
//! Also (P15): lookups by many keys.
use crate::engine::*;
use crate::real::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use opentelemetry::Context;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opsqueue::tracing::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ctx {
    #[serde(with = "hex128")]
    pub trace: u128,
    pub span: u64,
    pub sampled: bool,
    /// in order
    pub state: Vec<(String, String)>,
    pub baggage: BTreeMap<String, String>,
}
mod hex128 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{v:x}"))
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u128, D::Error> {
        u128::from_str_radix(&String::deserialize(d)?, 16).map_err(serde::de::Error::custom)
    }
}
fn word(rng: &mut Rng, max: u64) -> String {
    (0..rng.range(1, max)).map(|_| *rng.pick(b"abcxyz0189_-") as char).collect()
}
impl Ctx {
    pub fn generate(rng: &mut Rng) -> Ctx {
        let mut state: Vec<(String, String)> = vec![];
        // some are long, up to what the W3C asks to support (32 entries, and here 500 and 4000 bytes)
        let large = rng.chance(1, 8);
        let mut room: usize = 500;
        for _ in 0..if large { rng.range(10, 32) } else { rng.below(4) } {
            let k = format!("k{}", word(rng, 5));
            if !state.iter().any(|(x, _)| *x == k) {
                let v: String = (0..rng.range(1, 8)).map(|_| *rng.pick(b"abcXYZ019!#$%&'()*+-./:;<>?@[]^_`{|}~") as char).collect();
                let Some(r) = room.checked_sub(k.len() + v.len() + 2) else { break };
                room = r;
                state.push((k, v));
            }
        }
        let mut baggage = BTreeMap::new();
        for _ in 0..if large { rng.range(5, 50) } else { rng.below(4) } {
            let most = if large && rng.chance(1, 10) { 700 } else if large { 50 } else { 8 };
            let mut v = word(rng, most);
            if rng.chance(1, 3) {
                v = format!("v{}{}w", rng.pick(&["é", ",", " ", "=", "\u{1F600}", "/", ";"]), v);
            }
            baggage.insert(format!("b{}", word(rng, 4)), v);
        }
        Ctx {
            trace: match rng.below(6) {
                0 => 1,
                1 => u128::MAX,
                2 => 1u128 << rng.below(128),
                _ => (u128::from(rng.u64()) << 64) | u128::from(rng.u64()),
            }
            .max(1),
            span: match rng.below(5) {
                0 => 1,
                1 => u64::MAX,
                _ => rng.u64().max(1),
            },
            sampled: rng.chance(1, 2),
            state,
            baggage,
        }
    }
    fn context(&self) -> Context {
        let ts = TraceState::from_key_value(self.state.iter().map(|(k, v)| (k.clone(), v.clone()))).expect("trace state");
        let sc = SpanContext::new(TraceId::from(self.trace), SpanId::from(self.span), if self.sampled { TraceFlags::SAMPLED } else { TraceFlags::default() }, true, ts);
        Context::new().with_remote_span_context(sc).with_baggage(self.baggage.iter().map(|(k, v)| opentelemetry::KeyValue::new(k.clone(), v.clone())))
    }
    fn of(c: &Context) -> Option<Ctx> {
        let span = c.span();
        let s = span.span_context();
        let mut state = vec![];
        for part in s.trace_state().header().split(',').filter(|p| !p.is_empty()) {
            let (k, v) = part.split_once('=')?;
            state.push((k.to_string(), v.to_string()));
        }
        Some(Ctx {
            trace: u128::from_be_bytes(s.trace_id().to_bytes()),
            span: u64::from_be_bytes(s.span_id().to_bytes()),
            sampled: s.is_sampled(),
            state,
            baggage: c.baggage().iter().map(|(k, (v, _))| (k.to_string(), v.to_string())).collect(),
        })
    }
    /// The W3C text form, written independently
    pub fn headers(&self) -> BTreeMap<String, String> {
        let mut h = BTreeMap::new();
        h.insert("traceparent".to_string(), format!("00-{:032x}-{:016x}-{:02x}", self.trace, self.span, u8::from(self.sampled)));
        if !self.state.is_empty() {
            h.insert("tracestate".to_string(), self.state.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(","));
        }
        if !self.baggage.is_empty() {
            let enc = |s: &str| s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect::<String>();
            h.insert("baggage".to_string(), self.baggage.iter().map(|(k, v)| format!("{k}={}", enc(v))).collect::<Vec<_>>().join(","));
        }
        h
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CtxCase {
    pub ctx: Ctx,
    pub junk: Vec<String>,
}
pub struct Contexts;
impl Prop for Contexts {
    type Case = CtxCase;
    fn name(&self) -> &'static str {
        "contexts"
    }
    fn rule(&self) -> &'static str {
        "the context has trace state or baggage"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> CtxCase {
        let junk = (0..4)
            .map(|_| match rng.below(8) {
                0 => rng.string_edgy(30),
                1 => "{".into(),
                2 => json!({"traceparent": rng.string_edgy(60)}).to_string(),
                3 => json!({"traceparent": 7}).to_string(),
                4 => json!([1, 2]).to_string(),
                5 => json!({"traceparent": format!("00-{}-{}-01", "0".repeat(32), "1".repeat(16)), "baggage": rng.string_edgy(20), "tracestate": rng.string_edgy(20)}).to_string(),
                6 => String::new(),
                _ => json!({"traceparent": format!("{:02x}-{:032x}-{:016x}-{:02x}{}", rng.below(256), rng.u64(), rng.u64(), rng.below(256), rng.pick(&["", "-", "x", "-00"]))}).to_string(),
            })
            .collect();
        CtxCase { ctx: Ctx::generate(rng), junk }
    }
    fn run(&self, case: &CtxCase, _: Mode) -> RunResult {
        let mut info = CaseInfo { nontrivial: !case.ctx.state.is_empty() || !case.ctx.baggage.is_empty(), ..Default::default() };
        let c = case.ctx.context();
        macro_rules! same {
            ($got:expr, $want:expr, $what:expr) => {
                info.evals += 1;
                let (g, w) = ($got, $want);
                if g != w {
                    return fail_p_sound(&["P21"], $what, format!("got {g:?}, required {w:?}"));
                }
            };
        }
        let json = context_to_json(&c);
        same!(Ctx::of(&json_to_context(&json)), Some(case.ctx.clone()), "a trace context is not the same after it was text");
        let map: BTreeMap<String, String> = serde_json::from_str(&json).unwrap_or_default();
        let want = case.ctx.headers();
        same!(map.get("traceparent"), want.get("traceparent"), "the text form of a trace context is not the standard one");
        same!(map.get("tracestate").map(String::as_str).unwrap_or(""), want.get("tracestate").map(String::as_str).unwrap_or(""), "the text form of a trace state is not the standard one");
        same!(json_to_carrier(&json).into_iter().collect::<BTreeMap<_, _>>(), map, "the carrier of a trace context differs from its text form");
        same!(Ctx::of(&json_to_context(&serde_json::to_string(&want).unwrap())), Some(case.ctx.clone()), "a trace context in standard form is not understood");
        same!(Ctx::of(&context_from_headers(&context_to_headers(&c))), Some(case.ctx.clone()), "a trace context is not the same after it was in headers");
        let mut hm = http::HeaderMap::new();
        for (k, v) in &want {
            hm.insert(http::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
        }
        same!(Ctx::of(&context_from_headers(&hm)), Some(case.ctx.clone()), "a trace context in standard headers is not understood");
        for j in &case.junk {
            info.evals += 1;
            let c = json_to_context(j);
            let _ = json_to_carrier(j);
            // whatever it made of it, it has a text form again
            let t = context_to_json(&c);
            if serde_json::from_str::<BTreeMap<String, String>>(&t).is_err() {
                return fail_p_sound(&["P21"], "an unreadable trace context has no text form", format!("{j:?} became {t:?}"));
            }
            if j.parse::<Value>().is_err() && c.span().span_context().is_valid() {
                return fail_p_sound(&["P21"], "an unreadable trace context is taken for a valid one", j.clone());
            }
        }
        Ok(info)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TraceCase {
    pub log: Option<String>,
    /// submissions that are made at the same time: their headers, and whether through the client
    pub batches: Vec<Vec<(Option<Ctx>, Option<String>, bool)>>,
    pub end: u8,
}
pub struct TraceServer;
impl Prop for TraceServer {
    type Case = TraceCase;
    fn name(&self) -> &'static str {
        "server-traces"
    }
    fn rule(&self) -> &'static str {
        "submissions with and without trace contexts were made"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> TraceCase {
        let log = rng.pick(&[None, None, Some("info"), Some("warn"), Some("error"), Some("debug"), Some("opsqueue=debug"), Some("trace")]).map(Into::into);
        let batches = (0..rng.range(1, 5))
            .map(|_| {
                (0..*rng.pick(&[1u64, 1, 2, 4, 6]))
                    .map(|_| match rng.below(5) {
                        0 => (None, None, rng.chance(1, 2)),
                        1 => (None, Some(rng.pick(&["garbage", "00-0-0-00", "00-00000000000000000000000000000000-b7ad6b7169203331-01", "ff-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "00-0af7651916cd43dd8448eb211c80319c-0000000000000000-01", ""]).to_string()), false),
                        _ => (Some(Ctx::generate(rng)), None, rng.chance(1, 2)),
                    })
                    .collect()
            })
            .collect();
        TraceCase { log, batches, end: rng.below(4) as u8 }
    }
    fn shrink(&self, c: &TraceCase) -> Vec<TraceCase> {
        let mut out: Vec<_> = shrink_vec(&c.batches).into_iter().map(|batches| TraceCase { batches, ..c.clone() }).collect();
        for i in 0..c.batches.len() {
            for b in shrink_vec(&c.batches[i]) {
                let mut d = c.clone();
                d.batches[i] = b;
                out.push(d);
            }
        }
        out
    }
    fn run(&self, case: &TraceCase, _: Mode) -> RunResult {
        rt().block_on(run_traces(case))
    }
}

fn same_trace(carrier: &str, want: &Ctx) -> Result<(), String> {
    let map: BTreeMap<String, String> = serde_json::from_str(carrier).map_err(|e| format!("{carrier:?} cannot be read: {e}"))?;
    let h = want.headers();
    let tp = map.get("traceparent").cloned().unwrap_or_default();
    let f: Vec<&str> = tp.split('-').collect();
    if f.len() != 4 || f[1] != format!("{:032x}", want.trace) {
        return Err(format!("trace id {:032x} became {tp}", want.trace));
    }
    if f[3] != if want.sampled { "01" } else { "00" } {
        return Err(format!("sampling decision {} became {tp}", want.sampled));
    }
    if map.get("tracestate").cloned().unwrap_or_default() != h.get("tracestate").cloned().unwrap_or_default() {
        return Err(format!("trace state {:?} became {:?}", h.get("tracestate"), map.get("tracestate")));
    }
    let got = Ctx::of(&json_to_context(carrier)).map(|c| c.baggage);
    if got.as_ref() != Some(&want.baggage) {
        return Err(format!("baggage {:?} became {got:?}", want.baggage));
    }
    Ok(())
}

async fn run_traces(case: &TraceCase) -> RunResult {
    const P: &[&str] = &["P21"];
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let env: Vec<(&str, &str)> = case.log.iter().map(|l| ("RUST_LOG", l.as_str())).collect();
    let srv = Real::start(&file, &["--max-chunk-retries", "1"], &env).await?;
    let web = srv.http();
    let client = opsqueue::producer::Client::new(&format!("127.0.0.1:{}", srv.port));
    let mut worker = Raw::connect(srv.port, Arc::new(tokio::sync::Notify::new())).await?;
    let (mut with, mut without) = (0, 0);
    for batch in &case.batches {
        let subs = futures::future::join_all(batch.iter().enumerate().map(|(i, (ctx, junk, through))| {
            let body = json!({"chunk_contents": {"Direct": {"contents": [[i], [i, i]]}}, "metadata": null, "strategic_metadata": {}, "chunk_size": 1});
            let mut headers: Vec<(String, String)> = ctx.iter().flat_map(|c| c.headers()).collect();
            headers.extend(junk.iter().map(|j| ("traceparent".to_string(), j.clone())));
            let (web, client) = (&web, &client);
            async move {
                if *through {
                    let carrier: CarrierMap = headers.into_iter().collect();
                    let r = client.insert_submission(&serde_json::from_value(body).map_err(infra_err)?, &carrier).await;
                    match r {
                        Ok(id) => Ok(u64::from(id)),
                        Err(e) => fail_p(&["P21", "P24"], "a submission with a trace context fails", format!("{e:?}")),
                    }
                } else {
                    match web.post_headers("/producer/submissions", &body, &headers).await? {
                        (200, v) if v.is_u64() => Ok(v.as_u64().unwrap()),
                        (c, v) => fail_p(P, "a submission is refused because of its trace headers", format!("{c} {v} {headers:?}")),
                    }
                }
            }
        }))
        .await;
        let mut carriers = BTreeMap::new();
        for (r, (ctx, _, _)) in subs.into_iter().zip(batch) {
            let id = r?;
            let st = web.status(id).await?;
            let carrier = st["InProgress"]["otel_trace_carrier"].as_str().unwrap_or("").to_string();
            info.evals += 1;
            match ctx {
                Some(c) => {
                    with += 1;
                    if let Err(m) = same_trace(&carrier, c) {
                        return fail_p_sound(P, "the trace context of a request is not the one stored with its submission", format!("{m}; log level {:?}", case.log));
                    }
                }
                None => {
                    without += 1;
                    for other in batch.iter().filter_map(|b| b.0.as_ref()) {
                        if carrier.contains(&format!("{:032x}", other.trace)) {
                            return fail_p_sound(P, "a submission without a trace context got that of another one", format!("{carrier}"));
                        }
                    }
                }
            }
            carriers.insert(id, carrier);
        }
        // the consumer gets the same with each chunk
        let mut left = batch.len() * 2;
        let mut seen = std::collections::BTreeSet::new();
        while left > 0 {
            worker.reserve(3, &json!("Random")).await;
            let got = worker.recv(Duration::from_secs(20)).await.map(|g| parse(&g.msg));
            let Some(Parsed::Reserved { chunks, .. }) = got else { return infra(format!("no chunks: {got:?}")) };
            for c in chunks {
                left -= 1;
                info.evals += 1;
                let Some(want) = carriers.get(&c.sub) else { return infra("foreign chunk") };
                if c.submission["otel_trace_carrier"].as_str() != Some(want) {
                    return fail_p_sound(P, "the trace context with a chunk is not that of its submission", format!("{} instead of {want}", c.submission["otel_trace_carrier"]));
                }
                // (the last chunk, because after that no more chunks would come)
                if !seen.insert(c.sub) && case.end == 1 {
                    worker.fail((c.sub, c.idx), "x").await;
                } else {
                    worker.complete((c.sub, c.idx), &None).await;
                }
            }
        }
        // and it stays when the submission ends
        for (id, want) in &carriers {
            let end = tokio::time::Instant::now() + Duration::from_secs(20);
            loop {
                let st = web.status(*id).await?;
                let c = if st.get("Completed").is_some() { &st["Completed"]["otel_trace_carrier"] } else { &st["Failed"][0]["otel_trace_carrier"] };
                if st.get("InProgress").is_none() {
                    info.evals += 1;
                    if c.as_str() != Some(want) {
                        return fail_p_sound(&["P21", "P13"], "the trace context of a submission changed when it ended", format!("{st}, before {want}"));
                    }
                    break;
                }
                if tokio::time::Instant::now() > end {
                    return infra("submission does not end");
                }
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
        }
    }
    info.tag(format!("log-{}", case.log.clone().unwrap_or("default".into())));
    info.nontrivial = with > 0 && without > 0;
    Ok(info)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WideCase {
    /// how many keys the submissions have
    pub have: u64,
    pub ask: Vec<u64>,
    pub seed: u64,
}
/// P15 with many keys
pub struct Wide;
impl Prop for Wide {
    type Case = WideCase;
    fn name(&self) -> &'static str {
        "wide-lookups"
    }
    fn rule(&self) -> &'static str {
        "a lookup by at least 8 keys"
    }
    fn generate(&self, rng: &mut Rng, i: u64, _: Tier) -> WideCase {
        let mut ask: Vec<u64> = (0..6).map(|_| rng.range(1, 63)).collect();
        if i % 4 == 0 {
            ask.push(64 + rng.below(20));
        }
        WideCase { have: 90, ask, seed: rng.u64() }
    }
    fn shrink(&self, c: &WideCase) -> Vec<WideCase> {
        shrink_vec(&c.ask).into_iter().map(|ask| WideCase { ask, ..c.clone() }).collect()
    }
    fn run(&self, case: &WideCase, _: Mode) -> RunResult {
        rt().block_on(async {
            let mut info = CaseInfo::default();
            let mut rng = Rng::new(case.seed);
            let dir = Scratch::new();
            let file = fresh_db(dir.path());
            let srv = Server::start(&file, &SrvCfg::default()).await?;
            let web = srv.http();
            let mut subs = vec![];
            for _ in 0..4 {
                let m: BTreeMap<String, i64> = (0..case.have).map(|k| (format!("k{k}"), if rng.chance(1, 40) { 1 } else { 0 })).collect();
                let id = web.submit(&json!({"chunk_contents": {"Direct": {"contents": [[1]]}}, "metadata": null, "strategic_metadata": m, "chunk_size": 1})).await?;
                subs.push((id, m));
            }
            let mut known = None;
            for n in &case.ask {
                let like = rng.pick(&subs).1.clone();
                let mut keys: Vec<_> = like.into_iter().collect();
                rng.shuffle(&mut keys);
                let q: BTreeMap<String, i64> = keys.into_iter().take(*n as usize).collect();
                let want: Vec<u64> = subs.iter().filter(|(_, m)| q.iter().all(|(k, v)| m.get(k) == Some(v))).map(|(i, _)| *i).collect();
                info.evals += 1;
                info.nontrivial |= *n >= 8;
                match web.meta(&json!(q)).await? {
                    (200, v) if v == json!(want) => {}
                    (500, v) if *n > 63 => known = Some(format!("{n} keys: 500 {}", v.to_string().chars().take(160).collect::<String>())),
                    (c, v) => return fail_p(&["P15"], "a lookup by many keys gives a wrong answer", format!("{n} keys: {c} {v}, required {want:?}")),
                }
            }
            srv.stop().await;
            match known {
                Some(m) => fail_p_sound(&["P15"], "a lookup by more than 63 keys fails with an internal error", m),
                None => Ok(info),
            }
        })
    }
}
