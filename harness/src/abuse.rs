//! P19: malformed, oversized and nonsensical requests against the real server program, while a
//! well-behaved producer and consumer are using it.
use crate::engine::*;
use crate::real::*;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_tungstenite::tungstenite::Message;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Abuse {
    /// Must be refused
    Http { what: String, method: String, path: String, ctype: Option<String>, body: Vec<u8> },
    /// A well-formed submission that is larger than the server accepts
    Oversized { kb: u64 },
    /// A damaged submission that may still happen to be a valid one
    Mutant { body: Vec<u8> },
    /// A frame after which the connection must be closed
    Frame { what: String, text: bool, bytes: Vec<u8>, holding: bool },
    /// Reserve nothing: wrong usage
    Zero { strategy: Value },
    /// Reserve a lot
    Huge { max: u64, strategy: Value },
    /// A deeply nested strategy
    Deep { depth: u32, cbor: bool },
    /// Results for chunks that do not exist
    Ghost { sub: u64, idx: u64, fail: bool },
    /// Bytes on a websocket connection, after the handshake
    WsBytes { bytes: Vec<u8> },
    /// Bytes on a connection, which is then kept open or dropped
    Tcp { bytes: Vec<u8>, hold: bool },
    /// A frame with this many MB
    BigFrame { mb: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AbuseCase {
    pub chunks: u64,
    pub ops: Vec<Abuse>,
}

const BAD_IDS: &[&str] = &["-1", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "abc", "1.5", "0x10", "1e3", "%00", "%FF", "+", "null", "NaN", " 1", "%EF%BC%91"];

fn good_submission(rng: &mut Rng) -> Value {
    let contents = if rng.chance(1, 2) {
        json!({"Direct": {"contents": (0..rng.range(1, 3)).map(|_| if rng.chance(1, 4) { Value::Null } else { json!(rng.bytes(6)) }).collect::<Vec<_>>()}})
    } else {
        json!({"SeeObjectStorage": {"prefix": rng.string_edgy(6), "count": rng.range(1, 3)}})
    };
    json!({"chunk_contents": contents, "metadata": if rng.chance(1, 2) { Value::Null } else { json!(rng.bytes(5)) }, "strategic_metadata": {"k": rng.below(3)}, "chunk_size": rng.range(1, 9)})
}

/// A submission with exactly one thing wrong with it
fn bad_submission(rng: &mut Rng) -> (String, Vec<u8>) {
    let mut v = good_submission(rng);
    let what = match rng.below(22) {
        0 => {
            let b = serde_json::to_vec(&v).unwrap();
            let n = rng.usize(b.len());
            return ("cut short".into(), b[..n].to_vec());
        }
        1 => {
            v.as_object_mut().unwrap().remove("chunk_contents");
            "without contents"
        }
        2 => {
            v["chunk_contents"] = rng.pick(&[Value::Null, json!({}), json!([]), json!("Direct"), json!({"Direct": {}}), json!({"Elsewhere": {"prefix": "x", "count": 1}}), json!({"SeeObjectStorage": {"prefix": "x"}}), json!({"SeeObjectStorage": {"count": 1}})]).clone();
            "with unusable contents"
        }
        3 => {
            v["chunk_contents"] = json!({"SeeObjectStorage": {"prefix": "x", "count": -(rng.range(1, 9) as i64)}});
            "with a negative count"
        }
        4 => {
            v["chunk_contents"] = json!({"SeeObjectStorage": {"prefix": "x", "count": (1u64 << 63) + rng.below(1 << 20)}});
            "with a count out of range"
        }
        5 => {
            v["chunk_contents"] = json!({"SeeObjectStorage": {"prefix": "x", "count": (1u64 << rng.range(46, 62)) + rng.below(1 << 20)}});
            "with an impossible count"
        }
        6 => {
            v["chunk_contents"] = json!({"SeeObjectStorage": {"prefix": "x", "count": 1.5}});
            "with a fractional count"
        }
        7 => {
            v["chunk_contents"] = json!({"SeeObjectStorage": {"prefix": rng.below(9), "count": 1}});
            "with a number as prefix"
        }
        8 => {
            v["chunk_contents"] = json!({"Direct": {"contents": [[1, 2, 256 + rng.below(1000)]]}});
            "with a byte out of range"
        }
        9 => {
            v["chunk_contents"] = json!({"Direct": {"contents": [[1], ["x"]]}});
            "with text instead of bytes"
        }
        10 => {
            v["chunk_contents"] = json!({"Direct": {"contents": {"0": [1]}}});
            "with contents that are not a list"
        }
        11 => {
            v["chunk_size"] = rng.pick(&[json!("8"), json!(1.25), json!([1]), json!({}), json!(9223372036854775808u64)]).clone();
            "with an unusable chunk size"
        }
        12 => {
            v["strategic_metadata"] = rng.pick(&[json!([]), json!({"a": "x"}), json!({"a": 1.5}), json!({"a": null}), json!({"a": 9223372036854775808u64}), json!("x"), json!(7)]).clone();
            "with unusable strategic metadata"
        }
        13 => {
            v["metadata"] = rng.pick(&[json!(7), json!({"a": 1}), json!([300]), json!([-1])]).clone();
            "with unusable metadata"
        }
        14 => return ("that is not an object".into(), rng.pick(&[&b"null"[..], b"[]", b"7", b"\"x\"", b"true", b""]).to_vec()),
        15 => {
            let d = rng.range(100, 20_000) as usize;
            let mut b = br#"{"chunk_contents":"#.to_vec();
            b.extend(std::iter::repeat_n(b'[', d));
            if rng.chance(1, 2) {
                b.extend(std::iter::repeat_n(b']', d));
                b.push(b'}');
            }
            return ("nested deeply".into(), b);
        }
        16 => {
            let mut b = serde_json::to_vec(&json!({"chunk_contents": {"SeeObjectStorage": {"prefix": "@@", "count": 1}}, "metadata": null, "strategic_metadata": {}, "chunk_size": 1})).unwrap();
            let i = b.iter().position(|c| *c == b'@').unwrap();
            b[i] = 0xff;
            b[i + 1] = *rng.pick(&[0xfe, 0x80, 0xc0]);
            return ("with invalid text".into(), b);
        }
        17 => {
            let mut b = serde_json::to_vec(&v).unwrap();
            b.extend_from_slice(*rng.pick(&[&b"x"[..], b"}", b"{}", b",", b"\0"]));
            return ("with something after it".into(), b);
        }
        18 => {
            let mut b = rng.bytes(60);
            b.insert(0, *rng.pick(b"\x00\xff]}:abc"));
            return ("that is noise".into(), b);
        }
        19 => {
            v["chunk_contents"] = json!({"Direct": {"contents": [[1]]}, "SeeObjectStorage": {"prefix": "x", "count": 1}});
            "with two kinds of contents"
        }
        20 => {
            v["chunk_contents"] = json!({"Direct": {"contents": [[1]]}});
            let b = String::from_utf8(serde_json::to_vec(&v).unwrap()).unwrap().replace('1', "01");
            return ("with a number that is not JSON".into(), b.into_bytes());
        }
        _ => {
            v["chunk_contents"] = json!({"Direct": {"contents": [[-1]]}});
            "with a negative byte"
        }
    };
    (what.into(), serde_json::to_vec(&v).unwrap())
}

fn http(what: impl Into<String>, method: &str, path: impl Into<String>, ctype: Option<&str>, body: Vec<u8>) -> Abuse {
    Abuse::Http { what: what.into(), method: method.into(), path: path.into(), ctype: ctype.map(Into::into), body }
}

fn good_message(rng: &mut Rng) -> Value {
    let contents = match rng.below(3) {
        0 => json!({"WantToReserveChunks": {"max": rng.range(1, 4), "strategy": "Oldest"}}),
        1 => json!({"CompleteChunk": {"id": {"submission_id": rng.below(99), "chunk_index": rng.below(9)}, "output_content": [1, 2]}}),
        _ => json!({"FailChunk": {"id": {"submission_id": rng.below(99), "chunk_index": rng.below(9)}, "failure": "x"}}),
    };
    json!({"nonce": rng.below(9), "contents": contents})
}
fn bad_frame(rng: &mut Rng) -> Abuse {
    let holding = rng.chance(1, 3);
    let f = |what: &str, bytes| Abuse::Frame { what: what.into(), text: false, bytes, holding };
    let m = good_message(rng);
    match rng.below(12) {
        0 => Abuse::Frame { what: "text".into(), text: true, bytes: serde_json::to_vec(&m).unwrap(), holding },
        1 => {
            let b = cbor(&m);
            let n = rng.usize(b.len());
            f("cut short", b[..n].to_vec())
        }
        2 => f("JSON instead of CBOR", serde_json::to_vec(&m).unwrap()),
        3 => f("not a message", cbor(rng.pick(&[Value::Null, json!([]), json!(7), json!("x"), json!({}), json!({"nonce": 1}), json!({"contents": "x"})]))),
        4 => f("an unknown kind", cbor(&json!({"nonce": 1, "contents": rng.pick(&[json!({"Elsewhere": {}}), json!("WantToReserveChunks"), json!({}), Value::Null]).clone()}))),
        5 => f("an unusable nonce", cbor(&json!({"nonce": rng.pick(&[json!(-1), json!("1"), json!(1.5), Value::Null]).clone(), "contents": m["contents"]}))),
        6 => f("an unusable maximum", cbor(&json!({"nonce": 1, "contents": {"WantToReserveChunks": {"max": rng.pick(&[json!(-1), json!("1"), json!(1.5), Value::Null]).clone(), "strategy": "Oldest"}}}))),
        7 => f("an unknown strategy", cbor(&json!({"nonce": 1, "contents": {"WantToReserveChunks": {"max": 1, "strategy": rng.pick(&[json!("Biggest"), Value::Null, json!({"PreferDistinct": {}}), json!({"PreferDistinct": {"meta_key": 1, "underlying": "Oldest"}}), json!({"PreferDistinct": {"meta_key": "a", "underlying": "X"}})]).clone()}}}))),
        8 => {
            let bad = rng.pick(&[json!(-1), json!(1u64 << 63), json!(u64::MAX), json!("1"), json!(1.5), Value::Null]).clone();
            let mut id = json!({"submission_id": 1, "chunk_index": 1});
            id[*rng.pick(&["submission_id", "chunk_index"])] = bad;
            let c = if rng.chance(1, 2) { json!({"CompleteChunk": {"id": id, "output_content": null}}) } else { json!({"FailChunk": {"id": id, "failure": "x"}}) };
            f("an identifier out of range", cbor(&json!({"nonce": 1, "contents": c})))
        }
        9 => {
            let id = json!({"submission_id": 1, "chunk_index": 1});
            let c = rng.pick(&[json!({"CompleteChunk": {"id": id}, "X": 1}), json!({"FailChunk": {"id": id}}), json!({"FailChunk": {"id": id, "failure": 7}}), json!({"CompleteChunk": {"id": id, "output_content": [256]}}), json!({"CompleteChunk": {"id": id, "output_content": "x"}})]).clone();
            f("an unusable result", cbor(&json!({"nonce": 1, "contents": c})))
        }
        10 => f("nothing", vec![]),
        _ => {
            let mut b = vec![*rng.pick(&[0xffu8, 0x1c, 0x1d, 0x1e, 0x9b, 0xbb, 0x5b, 0x7b, 0xdb])];
            b.extend(std::iter::repeat_n(*rng.pick(&[0xffu8, 0x7f]), 8));
            b.extend(rng.bytes(20));
            f("noise", b)
        }
    }
}

pub fn gen_abuse(rng: &mut Rng) -> Abuse {
    let json_type = Some("application/json");
    match rng.weighted(&[10, 6, 3, 3, 2, 3, 16, 3, 3, 2, 3, 3, 3, 1]) {
        0 => {
            let (what, body) = bad_submission(rng);
            http(format!("a submission {what}"), "POST", "/producer/submissions", json_type, body)
        }
        1 => {
            let id = *rng.pick(BAD_IDS);
            let enc = id.replace(' ', "%20");
            if rng.chance(1, 2) { http("the status of an impossible id", "GET", format!("/producer/submissions/{enc}"), None, vec![]) } else { http("cancelling an impossible id", "POST", format!("/producer/submissions/cancel/{enc}"), None, vec![]) }
        }
        2 => {
            let (m, p) = *rng.pick(&[("GET", "/producer/submissions"), ("DELETE", "/producer/submissions/1"), ("PUT", "/producer/submissions"), ("GET", "/producer/submissions/cancel/1"), ("GET", "/nowhere"), ("POST", "/ping"), ("GET", "/consumer"), ("POST", "/consumer"), ("GET", "/producer/submissions/lookup_id_by_prefix/"), ("GET", "/producer/submissions/lookup_id_by_prefix/%FF%FE"), ("GET", "/producer/submissions/lookup_ids_by_strategic_metadata"), ("BREW", "/producer/submissions"), ("POST", "/producer/submissions/1"), ("PATCH", "/producer/submissions/cancel/1"), ("GET", "/intentionally-panic-for-tests")]);
            http(format!("{m} {p}"), m, p, None, vec![])
        }
        3 => {
            let body = rng.pick(&[&b""[..], b"null", b"[]", b"{\"a\":1.5}", b"{\"a\":\"x\"}", b"{\"a\":9223372036854775808}", b"{\"a\":1", b"7", b"{1:2}", b"{\"a\":null}"]).to_vec();
            http("a lookup with unusable metadata", "POST", "/producer/submissions/lookup_ids_by_strategic_metadata", json_type, body)
        }
        4 => {
            let body = serde_json::to_vec(&good_submission(rng)).unwrap();
            http("a submission that is not marked as JSON", "POST", "/producer/submissions", *rng.pick(&[None, Some("text/plain"), Some("application/cbor"), Some("")]), body)
        }
        5 => {
            let mut body = serde_json::to_vec(&good_submission(rng)).unwrap();
            for _ in 0..rng.range(1, 3) {
                let i = rng.usize(body.len());
                match rng.below(3) {
                    0 => body[i] = rng.below(256) as u8,
                    1 => {
                        body.remove(i);
                    }
                    _ => body.insert(i, *rng.pick(b"0129-.e\"{}[],:\x00 ")),
                }
            }
            Abuse::Mutant { body }
        }
        6 => bad_frame(rng),
        7 => Abuse::Zero { strategy: rng.pick(&[json!("Oldest"), json!("Newest"), json!("Random"), json!({"PreferDistinct": {"meta_key": "k", "underlying": "Oldest"}})]).clone() },
        8 => Abuse::Huge { max: *rng.pick(&[1000, 1 << 20, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX]), strategy: rng.pick(&[json!("Oldest"), json!("Random"), json!({"PreferDistinct": {"meta_key": "k", "underlying": "Newest"}})]).clone() },
        9 => Abuse::Deep { depth: *rng.pick(&[20, 63, 64, 65, 100, 130, 260, 1000, 20_000]), cbor: rng.chance(1, 2) },
        10 => Abuse::Ghost { sub: *rng.pick(&[0, 1, (1 << 63) - 1, 1 << 62, 12345]), idx: *rng.pick(&[0, 1, (1 << 63) - 1]), fail: rng.chance(1, 2) },
        11 => Abuse::WsBytes {
            bytes: match rng.below(5) {
                0 => vec![0x82, 0x05, 1, 2, 3, 4, 5],                                    // not masked
                1 => vec![0x83, 0x80, 0, 0, 0, 0],                                       // reserved kind
                2 => vec![0xf2, 0x80, 0, 0, 0, 0],                                       // reserved bits
                3 => vec![0x82, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 9], // enormous length
                _ => rng.bytes(40),
            },
        },
        12 => Abuse::Tcp {
            bytes: match rng.below(5) {
                0 => b"GET /producer/submissions/1 HTTP/1.1\r\nHost: x\r\n".to_vec(),
                1 => b"POST /producer/submissions HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 500\r\n\r\n{\"chunk_contents\":".to_vec(),
                2 => [b"GET /".to_vec(), vec![b'a'; rng.range(1000, 200_000) as usize], b" HTTP/1.1\r\n\r\n".to_vec()].concat(),
                3 => b"POST /producer/submissions HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nFFFFFFFFFFFFFFFFF\r\n".to_vec(),
                _ => rng.bytes(80),
            },
            hold: rng.chance(1, 2),
        },
        _ => if rng.chance(1, 4) { Abuse::BigFrame { mb: rng.range(17, 20) } } else { Abuse::Oversized { kb: *rng.pick(&[2100, 2500, 5000]) } },
    }
}

async fn tcp(port: u16) -> Result<tokio::net::TcpStream, RunError> {
    tokio::net::TcpStream::connect(("127.0.0.1", port)).await.map_err(|e| infra_err(format!("connect: {e}")))
}
/// The status code of the reply, or `None` if the connection was closed without one
async fn request(port: u16, method: &str, path: &str, ctype: Option<&str>, body: &[u8]) -> Result<Option<(u16, Vec<u8>)>, RunError> {
    let mut s = tcp(port).await?;
    let mut head = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: {}\r\n", body.len());
    if let Some(c) = ctype {
        head += &format!("Content-Type: {c}\r\n");
    }
    head += "\r\n";
    let io = async {
        let (mut r, mut w) = s.split();
        // the server may answer (and close) before it has read everything
        let write = async {
            let _ = w.write_all(head.as_bytes()).await;
            let _ = w.write_all(body).await;
        };
        let mut out = vec![];
        let read = async {
            let _ = r.read_to_end(&mut out).await;
        };
        tokio::join!(write, read);
        out
    };
    let out = tokio::time::timeout(Duration::from_secs(30), io).await.map_err(|_| RunError::Violation(Failure { sig: "a bad request is never answered".into(), msg: format!("{method} {path}"), sound: false, props: vec!["P19", "P26"] }))?;
    let text = String::from_utf8_lossy(&out);
    let code = text.strip_prefix("HTTP/1.1 ").and_then(|t| t.get(..3)).and_then(|c| c.parse().ok());
    let body = text.split_once("\r\n\r\n").map(|(_, b)| b.as_bytes().to_vec()).unwrap_or_default();
    Ok(code.map(|c| (c, body)))
}

pub struct AbuseProp;
impl Prop for AbuseProp {
    type Case = AbuseCase;
    fn name(&self) -> &'static str {
        "abuse"
    }
    fn rule(&self) -> &'static str {
        "at least three bad requests of different kinds were sent while a consumer held a chunk"
    }
    fn generate(&self, rng: &mut Rng, _: u64, _: Tier) -> AbuseCase {
        AbuseCase { chunks: rng.range(2, 4), ops: (0..rng.range(8, 30)).map(|_| gen_abuse(rng)).collect() }
    }
    fn shrink(&self, c: &AbuseCase) -> Vec<AbuseCase> {
        shrink_vec(&c.ops).into_iter().map(|ops| AbuseCase { ops, ..c.clone() }).collect()
    }
    fn run(&self, case: &AbuseCase, mode: Mode) -> RunResult {
        rt().block_on(run_abuse(case, mode))
    }
}

async fn run_abuse(case: &AbuseCase, mode: Mode) -> RunResult {
    const P: &[&str] = &["P19"];
    let mut info = CaseInfo::default();
    let dir = Scratch::new();
    let file = fresh_db(dir.path());
    let mut srv = Real::start(&file, &[], &[]).await?;
    let port = srv.port;
    let web = srv.http();
    let wait = Duration::from_secs(if mode.slow { 25 } else { 12 });
    let notify = Arc::new(tokio::sync::Notify::new());

    let id = web.submit(&json!({"chunk_contents": {"Direct": {"contents": (0..case.chunks).map(|i| vec![i]).collect::<Vec<_>>()}}, "metadata": [7], "strategic_metadata": {"k": 1}, "chunk_size": 1})).await?;
    let mut good = Raw::connect(port, notify.clone()).await?;
    good.reserve(1, &json!("Oldest")).await;
    let held = match good.recv(wait).await.map(|g| parse(&g.msg)) {
        Some(Parsed::Reserved { chunks, .. }) if chunks.len() == 1 => (chunks[0].sub, chunks[0].idx),
        other => return infra(format!("no chunk at the start: {other:?}")),
    };
    let mut base = dump(&file).await?;
    let mut kinds = std::collections::BTreeSet::new();
    let mut open = vec![];
    let mut silent_ws = vec![];
    let mut other_subs = std::collections::BTreeSet::new();

    for op in &case.ops {
        info.evals += 1;
        let what = match op {
            Abuse::Http { what, .. } => what.clone(),
            Abuse::Frame { what, .. } => format!("a message: {what}"),
            Abuse::Oversized { .. } => "an oversized submission".into(),
            Abuse::Mutant { .. } => "a damaged submission".into(),
            Abuse::Zero { .. } => "a request for nothing".into(),
            Abuse::Huge { .. } => "a request for very many chunks".into(),
            Abuse::Deep { .. } => "a deeply nested strategy".into(),
            Abuse::Ghost { .. } => "a result for a chunk that does not exist".into(),
            Abuse::WsBytes { .. } => "broken websocket frames".into(),
            Abuse::Tcp { .. } => "a broken connection".into(),
            Abuse::BigFrame { .. } => "an oversized message".into(),
        };
        kinds.insert(what.clone());
        info.tag(what.split(" with").next().unwrap_or("?").to_string());
        let mut may_add = false;
        let dead = |srv: &mut Real| -> Result<(), RunError> {
            match srv.exited() {
                None => Ok(()),
                Some(s) => fail_p_sound(&["P19", "P26"], format!("the server ended after {what}"), format!("{s}; {op:?}; {}", srv.tail())),
            }
        };
        match op {
            Abuse::Http { method, path, ctype, body, .. } => {
                let r = request(port, method, path, ctype.as_deref(), body).await;
                dead(&mut srv)?;
                if let Some((c, b)) = r? {
                    if c < 400 {
                        return fail_p_sound(&["P19", "P18", "P17"], format!("{what} is not refused"), format!("{c} {} for {method} {path} {}", String::from_utf8_lossy(&b), String::from_utf8_lossy(body)));
                    }
                }
            }
            Abuse::Oversized { kb } => {
                let body = serde_json::to_vec(&json!({"chunk_contents": {"SeeObjectStorage": {"prefix": "x".repeat((*kb * 1024) as usize), "count": 1}}, "metadata": null, "strategic_metadata": {}, "chunk_size": 1})).unwrap();
                let r = request(port, "POST", "/producer/submissions", Some("application/json"), &body).await;
                dead(&mut srv)?;
                if let Some((c, _)) = r? {
                    if c < 400 {
                        return fail_p_sound(P, format!("{what} is not refused"), format!("{c} for {kb} kB"));
                    }
                }
            }
            Abuse::Mutant { body } => {
                may_add = true;
                let r = request(port, "POST", "/producer/submissions", Some("application/json"), body).await;
                dead(&mut srv)?;
                if let Some((200, b)) = r? {
                    info.tag("mutant-accepted");
                    if let Some(n) = serde_json::from_slice::<Value>(&b).ok().and_then(|v| v.as_u64()) {
                        other_subs.insert(n);
                        web.cancel(n).await?;
                    }
                }
            }
            Abuse::Frame { text, bytes, holding, .. } => {
                let mut ws = Raw::connect(port, notify.clone()).await?;
                if *holding {
                    // it has a chunk itself, which others get when it is thrown out
                    ws.next_nonce = 1000;
                    ws.reserve(1, &json!("Random")).await;
                }
                let m = if *text { Message::Text(String::from_utf8_lossy(bytes).into_owned().into()) } else { Message::Binary(bytes.clone().into()) };
                ws.send_raw(m).await;
                let end = tokio::time::Instant::now() + wait;
                while !ws.closed() {
                    match ws.recv(Duration::from_millis(200)).await.map(|g| parse(&g.msg)) {
                        Some(Parsed::Reserved { nonce: 1000, .. }) if *holding => info.tag("refused-while-holding"),
                        Some(Parsed::Reserved { chunks, .. }) => return fail_p_sound(&["P19", "P18"], format!("{what} is acted upon"), format!("{op:?}: got {chunks:?}")),
                        Some(Parsed::Refused { .. }) => break,
                        _ => {}
                    }
                    if tokio::time::Instant::now() > end {
                        dead(&mut srv)?;
                        return fail_p(&["P19", "P18"], format!("{what} is not refused"), format!("the connection stays open after {op:?}"));
                    }
                }
                dead(&mut srv)?;
                ws.drop_hard().await;
            }
            Abuse::Zero { strategy } => {
                let mut ws = Raw::connect(port, notify.clone()).await?;
                let n = ws.reserve(0, strategy).await;
                match ws.recv(wait).await.map(|g| parse(&g.msg)) {
                    Some(Parsed::Refused { nonce, .. }) if nonce == n => {}
                    other => {
                        dead(&mut srv)?;
                        return fail_p(&["P19", "P09"], "a request for zero chunks is not refused", format!("{other:?} for {strategy}"));
                    }
                }
                if ws.closed() {
                    return fail_p(P, "the connection is closed after a request for zero chunks", format!("{strategy}"));
                }
                ws.close().await;
            }
            Abuse::Huge { max, strategy } => {
                let mut ws = Raw::connect(port, notify.clone()).await?;
                ws.reserve(*max, strategy).await;
                let r = ws.recv(wait).await.map(|g| parse(&g.msg));
                dead(&mut srv)?;
                match r {
                    Some(Parsed::Reserved { chunks, .. }) => {
                        if chunks.iter().any(|c| (c.sub, c.idx) == held) {
                            return fail_p_sound(&["P19", "P07"], "a held chunk was handed out to another consumer", format!("{chunks:?}"));
                        }
                        if chunks.is_empty() {
                            return fail_p(&["P19", "P09"], "an empty reply to a request for very many chunks", format!("{op:?}"));
                        }
                    }
                    None if ws.closed() => {
                        info.tag("huge-closed");
                    }
                    other => return fail_p(&["P19", "P09", "P26"], "no answer to a request for very many chunks", format!("{other:?} {op:?}")),
                }
                ws.close().await;
            }
            Abuse::Deep { depth, cbor: real } => {
                let mut ws = Raw::connect(port, notify.clone()).await?;
                let mut b = vec![0xa2, 0x65];
                b.extend_from_slice(b"nonce");
                b.push(0);
                b.push(0x68);
                b.extend_from_slice(b"contents");
                if *real {
                    // WantToReserveChunks {max: 1, strategy: PreferDistinct{meta_key, underlying: ...}}
                    b.push(0xa1);
                    b.push(0x73);
                    b.extend_from_slice(b"WantToReserveChunks");
                    b.push(0xa2);
                    b.extend_from_slice(b"\x63max\x01\x68strategy");
                    for _ in 0..*depth {
                        b.extend_from_slice(b"\xa1\x6ePreferDistinct\xa2\x68meta_key\x61k\x6aunderlying");
                    }
                    b.extend_from_slice(b"\x66Oldest");
                } else {
                    b.extend(std::iter::repeat_n(0x81u8, *depth as usize));
                    b.push(0);
                }
                ws.send_raw(Message::Binary(b.into())).await;
                let r = ws.recv(wait).await.map(|g| parse(&g.msg));
                dead(&mut srv)?;
                match r {
                    Some(Parsed::Reserved { chunks, .. }) => {
                        info.tag(format!("deep-served-{depth}"));
                        if chunks.iter().any(|c| (c.sub, c.idx) == held) {
                            return fail_p_sound(&["P19", "P07"], "a held chunk was handed out to another consumer", format!("{chunks:?}"));
                        }
                    }
                    None if ws.closed() => {}
                    other => return fail_p(&["P19", "P26"], "no answer to a deeply nested message", format!("{other:?} {op:?}")),
                }
                ws.close().await;
            }
            Abuse::Ghost { sub, idx, fail } => {
                let mut ws = Raw::connect(port, notify.clone()).await?;
                if *fail { ws.fail((*sub, *idx), "ghost").await } else { ws.complete((*sub, *idx), &Some(vec![1])).await }
                // anything that has been dealt with after it
                ws.reserve(0, &json!("Oldest")).await;
                let _ = ws.recv(wait).await;
                ws.close().await;
            }
            Abuse::WsBytes { bytes } => {
                let mut s = tcp(port).await?;
                let _ = s.write_all(b"GET /consumer HTTP/1.1\r\nHost: localhost\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").await;
                let mut buf = [0u8; 4096];
                let _ = tokio::time::timeout(wait, s.read(&mut buf)).await;
                let _ = s.write_all(bytes).await;
                tokio::time::sleep(Duration::from_millis(5)).await;
                silent_ws.push(s);
            }
            Abuse::Tcp { bytes, hold } => {
                let mut s = tcp(port).await?;
                let _ = tokio::time::timeout(wait, s.write_all(bytes)).await;
                if *hold {
                    open.push(s);
                }
            }
            Abuse::BigFrame { mb } => {
                let mut ws = Raw::connect(port, notify.clone()).await?;
                ws.send_raw(Message::Binary(vec![0u8; (*mb << 20) as usize].into())).await;
                let end = tokio::time::Instant::now() + wait;
                while !ws.closed() && tokio::time::Instant::now() < end {
                    let _ = ws.recv(Duration::from_millis(100)).await;
                }
                dead(&mut srv)?;
                if !ws.closed() {
                    return fail_p(P, format!("{what} is not refused"), format!("{mb} MB"));
                }
                ws.drop_hard().await;
            }
        }
        dead(&mut srv)?;
        let now = dump(&file).await?;
        if may_add {
            if let Some(l) = base.iter().find(|l| !now.contains(l)) {
                return fail_p_sound(P, format!("{what} changed something else"), format!("{l} is gone after {op:?}"));
            }
        } else if now != base {
            let gone: Vec<_> = base.iter().filter(|l| !now.contains(l)).collect();
            let new: Vec<_> = now.iter().filter(|l| !base.contains(l)).collect();
            return fail_p_sound(P, format!("{what} changed the queue"), format!("gone {gone:?}, new {new:?} after {op:?}"));
        }
        base = now;
        if good.closed() {
            return fail_p(P, format!("{what} cut off another consumer"), format!("{op:?}"));
        }
    }

    // Everybody else goes on working: the held chunk can be completed, the others are handed out.
    good.complete(held, &Some(vec![9])).await;
    let mut left = case.chunks - 1;
    while left > 0 {
        good.reserve(left, &json!("Random")).await;
        let got = good.recv(wait + Duration::from_secs(8)).await.map(|g| parse(&g.msg));
        if let Some(s) = srv.exited() {
            return fail_p_sound(&["P19", "P26"], "the server ended after bad requests", format!("{s}; {}", srv.tail()));
        }
        match got {
            Some(Parsed::Reserved { chunks, .. }) if !chunks.is_empty() => {
                for c in chunks {
                    if other_subs.contains(&c.sub) {
                        continue;
                    }
                    good.complete((c.sub, c.idx), &None).await;
                    left -= 1;
                }
            }
            other => return fail_p(&["P19", "P26"], "after bad requests, other consumers are not served any more", format!("{other:?} with {left} chunks left")),
        }
    }
    let end = tokio::time::Instant::now() + wait;
    loop {
        let s = web.status(id).await?;
        if s.get("Completed").is_some() {
            break;
        }
        if tokio::time::Instant::now() > end {
            return fail_p(&["P19", "P26"], "after bad requests, a submission cannot be completed any more", format!("{s}"));
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    web.submit(&json!({"chunk_contents": {"Direct": {"contents": [[1]]}}, "metadata": null, "strategic_metadata": {}, "chunk_size": 1})).await?;
    info.evals += 2;
    info.nontrivial = kinds.len() >= 3;
    drop(open);
    drop(silent_ws);
    Ok(info)
}
