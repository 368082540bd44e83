//! `check <ID> [quick|thorough] [--replay FILE]`: decides one property.
use vharness::abuse::*;
use vharness::chaos::*;
use vharness::cleaner::*;
use vharness::cons::*;
use vharness::crash::*;
use vharness::dbm::*;
use vharness::disk::*;
use vharness::engine::*;
use vharness::hist::*;
use vharness::model::SpecGen;
use vharness::prod::*;
use vharness::program::*;
use vharness::py::*;
use vharness::scale::*;
use vharness::stores::*;
use vharness::trace::*;
use vharness::upgrade::*;
use vharness::wide::*;
use vharness::wire::*;

fn spec_default() -> SpecGen {
    SpecGen::default()
}
fn spec_bulk() -> SpecGen {
    SpecGen { bulk: 6, ..Default::default() }
}
fn spec_prefix() -> SpecGen {
    SpecGen { stored: 60, prefixes: ["same", "a/b?c#d", "x%2Fy", "", "Same", "sam_", "sa%", "s*", "same ", "same/", "SAME", "sam"].iter().map(|p| p.to_string()).collect(), ..Default::default() }
}
fn spec_small_meta() -> SpecGen {
    SpecGen { vals: vec![1, 2, -1], max_chunks: 2, keys: ["company_id", "companyXid", "Company_id", "k'\"é", "k%"].iter().map(|k| k.to_string()).collect(), ..Default::default() }
}
fn spec_small() -> SpecGen {
    SpecGen { max_chunks: 4, ..Default::default() }
}
fn spec_crash() -> SpecGen {
    SpecGen { max_chunks: 4, bulk: 1, keys: vec!["a".into(), "b".into()], vals: vec![1, 2], ..Default::default() }
}
fn spec_meta() -> SpecGen {
    SpecGen { max_chunks: 3, zero: 0, edgy: false, keys: vec!["a".into(), "b".into(), "k'\"é".into()], vals: vec![1, 2, -3], ..Default::default() }
}

//                       sub com fail rest out can gho mark cle pre met reo
const DB_MIX: [u64; 12] = [5, 10, 8, 2, 2, 2, 1, 1, 1, 1, 1, 1];
//                        sub con res com fail stale late can close exp pre meta abort restart probe
const SRV_MIX: [u64; 15] = [6, 3, 14, 10, 5, 2, 0, 2, 2, 0, 1, 1, 0, 1, 2];

/// Histories of the storage layer
fn db_part(id: &str) -> Option<Profile> {
    let p = |name, rule, w, spec, nontrivial| Some(Profile { name, rule, w, len: (8, 40), spec, nontrivial });
    match id {
        "P01" => p("db-mix", "history with at least one completed, one failed-or-cancelled submission", DB_MIX, spec_default, |t| all(t, &["end:Completed"]) && any(t, &["end:Failed", "end:Cancelled"])),
        "P02" => p("db-complete", "a submission completed and at least one stale or foreign completion was tried", [5, 20, 2, 3, 0, 1, 2, 0, 0, 0, 0, 1], spec_default, |t| all(t, &["end:Completed", "complete-stale"])),
        "P03" => p("db-payload", "a chunk was completed with an output or failed with a text", [6, 14, 6, 1, 2, 1, 0, 0, 0, 0, 0, 1], spec_default, |t| any(t, &["complete-applied"])),
        "P04" => p("db-retry", "a chunk was retried and a submission failed permanently", [4, 4, 24, 1, 3, 1, 1, 0, 0, 0, 0, 1], spec_default, |t| all(t, &["retried", "failed-permanently"])),
        "P05" => p("db-terminal", "operations were tried on ended submissions", [4, 12, 12, 4, 4, 6, 0, 1, 1, 1, 1, 1], spec_default, |t| any(t, &["complete-stale", "fail-stale", "cancel-Completed", "cancel-Failed", "cancel-Cancelled"])),
        "P06" => p("db-cancel", "a submission was cancelled and later operations hit it", [5, 8, 6, 2, 2, 14, 1, 0, 0, 1, 1, 1], spec_default, |t| all(t, &["cancel-ok"]) && any(t, &["complete-stale", "fail-stale", "cancel-Cancelled"])),
        "P13" => p("db-attributes", "a submission ended", [8, 8, 4, 4, 4, 4, 0, 0, 0, 0, 0, 2], spec_default, |t| any(t, &["end:Completed", "end:Failed", "end:Cancelled"])),
        "P14" => p("db-prefix", "a lookup found a submission that has ended", [8, 4, 1, 4, 4, 4, 0, 1, 1, 24, 0, 1], spec_prefix, |t| any(t, &["prefix-hit-Completed", "prefix-hit-Failed", "prefix-hit-Cancelled"])),
        "P15" => p("db-metadata", "a lookup matched at least one submission", [16, 4, 1, 3, 2, 3, 0, 0, 0, 0, 24, 1], spec_small_meta, |t| any(t, &["metadata-lookup-hit"])),
        "P16" => p("db-cleanup", "a cleanup removed some and kept some", [6, 8, 3, 4, 4, 4, 0, 6, 8, 1, 1, 1], spec_default, |t| all(t, &["cleanup-removed-some", "cleanup-kept-young"])),
        _ => None,
    }
}
fn bulk_part(id: &str) -> Option<Profile> {
    let p = |name| Some(Profile { name, rule: "a submission of about one or several thousand chunks was stored", w: [4, 10, 6, 0, 2, 2, 0, 1, 1, 0, 0, 1], len: (4, 16), spec: spec_bulk, nontrivial: |t| any(t, &["bulk-submission"]) });
    match id {
        "P01" | "P03" | "P06" | "P16" => p("db-bulk"),
        _ => None,
    }
}

/// Histories of a whole server
fn srv_parts(id: &str) -> Vec<(SProfile, u64)> {
    let p = |name, rule, w, spec, prefer, nontrivial| SProfile { name, rule, w, len: (10, 40), spec, prefer, expiration: 600_000, silence: false, real: false, nontrivial };
    let expiring = |p: SProfile| SProfile { expiration: 1000, ..p };
    let silent = |p: SProfile| SProfile { silence: true, len: (8, 20), ..p };
    match id {
        "P01" => vec![(p("server-mix", "a history with completions, failures or cancellations", SRV_MIX, spec_small, 3, |t| any(t, &["complete-applied"]) && any(t, &["failed-permanently", "cancel", "cancel-while-held"])), 200)],
        "P27" => vec![(
            SProfile { real: true, len: (25, 60), ..p("metrics", "at the end at least ten different metrics were not zero", [8, 3, 16, 10, 10, 4, 0, 4, 2, 0, 0, 0, 1, 1, 1], spec_small, 1, |t| t.keys().filter(|k| k.starts_with("metric:")).count() >= 10) },
            96,
        )],
        "P02" => vec![(p("server-complete", "a submission completed and stale results were sent", [6, 2, 14, 14, 2, 5, 0, 1, 1, 0, 0, 0, 0, 1, 0], spec_small, 1, |t| all(t, &["end:Completed", "stale-result"])), 200)],
        "P03" => vec![(p("server-payload", "a chunk was handed out and completed", [8, 3, 16, 10, 4, 0, 0, 0, 2, 0, 0, 0, 0, 1, 1], spec_default, 2, |t| any(t, &["complete-applied"])), 200)],
        "P04" => vec![(p("server-retry", "a chunk was retried and a submission failed permanently", [4, 2, 16, 3, 16, 1, 0, 1, 2, 0, 0, 0, 0, 1, 2], spec_small, 1, |t| all(t, &["retried", "failed-permanently"])), 200)],
        "P05" => vec![(p("server-terminal", "results or cancels for ended submissions were sent", [5, 2, 14, 10, 8, 8, 0, 5, 2, 0, 0, 0, 0, 1, 0], spec_small, 1, |t| any(t, &["stale-result", "cancel-ended"])), 200)],
        "P06" => vec![(p("server-cancel", "a submission was cancelled while chunks of it were held", [6, 3, 14, 6, 4, 2, 0, 10, 2, 0, 0, 0, 0, 1, 3], spec_small, 2, |t| any(t, &["cancel-while-held"])), 200)],
        "P07" => vec![
            (p("server-exclusive", "several consumers held chunks", [5, 5, 18, 6, 5, 2, 0, 1, 4, 0, 0, 0, 0, 0, 3], spec_small, 3, |t| any(t, &["complete-applied"])), 150),
            (expiring(p("server-expiry", "a reservation expired", [4, 3, 14, 4, 3, 1, 6, 1, 2, 3, 0, 0, 0, 0, 2], spec_small, 3, |t| any(t, &["expired"]))), 60),
        ],
        "P08" => vec![
            (p("server-abandon", "a consumer went away or failed while holding chunks", [5, 5, 14, 3, 6, 1, 0, 1, 7, 0, 0, 0, 0, 0, 2], spec_small, 3, |t| any(t, &["close-polite-while-holding", "close-hard-while-holding"]) && any(t, &["retried"])), 200),
            (silent(p("server-silence", "a consumer that held chunks stopped answering", [5, 5, 14, 3, 3, 0, 0, 1, 4, 0, 0, 0, 0, 0, 2], spec_small, 3, |t| any(t, &["silence-while-holding"]))), 60),
            (expiring(p("server-expiry", "a reservation expired", [4, 3, 14, 3, 3, 1, 2, 1, 2, 4, 0, 0, 0, 0, 2], spec_small, 3, |t| any(t, &["expired"]))), 60),
        ],
        "P09" => vec![
            (p("server-wait", "a request waited and was served", [7, 3, 18, 4, 6, 1, 0, 1, 4, 0, 0, 0, 4, 0, 0], spec_small, 3, |t| any(t, &["request-waits"]) && any(t, &["reply"])), 250),
            (expiring(p("server-wait-expiry", "a reservation expired while requests waited", [4, 4, 18, 3, 3, 1, 2, 1, 2, 4, 0, 0, 0, 0, 0], spec_small, 3, |t| all(t, &["expired", "request-waits"]))), 50),
        ],
        "P10" => vec![(p("server-restart", "a server was restarted between operations", [6, 3, 14, 8, 5, 1, 0, 2, 2, 0, 1, 1, 0, 6, 3], spec_small, 3, |t| any(t, &["restart"])), 150)],
        "P11" => vec![(p("server-order", "a strategy had a choice between submissions", [8, 2, 18, 6, 3, 1, 0, 1, 2, 0, 0, 0, 0, 0, 5], spec_meta, 6, |t| any(t, &["choice-between-submissions"])), 250),
            (p("server-ranking", "submissions with different in-flight counts were ranked", [0; 15], spec_meta, 10, |t| any(t, &["ranking-with-different-counts"])), 150)],
        "P12" => vec![
            (p("server-balance", "submissions with different in-flight counts were ranked", [7, 3, 16, 6, 5, 2, 0, 2, 5, 0, 0, 0, 0, 0, 5], spec_meta, 9, |t| any(t, &["ranking-with-different-counts"])), 250),
            (expiring(p("server-balance-expiry", "a reservation expired and submissions were ranked", [6, 3, 16, 4, 3, 1, 3, 1, 2, 3, 0, 0, 0, 0, 5], spec_meta, 9, |t| all(t, &["expired", "ranking-with-different-counts"]))), 60),
            (p("server-ranking", "submissions with different in-flight counts were ranked", [0; 15], spec_meta, 10, |t| any(t, &["ranking-with-different-counts"])), 100),
        ],
        "P13" => vec![(p("server-attributes", "a submission ended", [8, 2, 12, 10, 6, 0, 0, 4, 1, 0, 0, 0, 0, 2, 0], spec_default, 1, |t| any(t, &["end:Completed", "end:Failed", "end:Cancelled"])), 150)],
        "P14" => vec![(p("server-prefix", "a lookup found a submission", [8, 2, 8, 6, 3, 0, 0, 3, 1, 0, 16, 0, 0, 1, 0], spec_prefix, 1, |t| any(t, &["prefix-hit"])), 150)],
        "P15" => vec![(p("server-metadata", "a lookup matched", [12, 2, 6, 4, 3, 0, 0, 3, 1, 0, 0, 18, 0, 1, 0], spec_small_meta, 1, |t| any(t, &["meta-hit"])), 150)],
        _ => vec![],
    }
}

/// Checks without a model of the whole queue
fn other_parts(c: &mut Check) {
    if matches!(c.id.as_str(), "P01" | "P02" | "P03" | "P04" | "P06") {
        let n = c.n(48, 1500);
        c.run(&Scale, n);
    }
    if matches!(c.id.as_str(), "P01" | "P02" | "P04") {
        let n = c.n(300, 8000);
        c.run(&LongProgress, n);
    }
    if matches!(c.id.as_str(), "P11" | "P26") {
        let n = c.n(4, 80);
        c.run(&WideQueue, n);
    }
    if matches!(c.id.as_str(), "P07" | "P08" | "P11" | "P26") {
        let n = c.n(8, 200);
        c.run(&HeldQueue, n);
    }
    if matches!(c.id.as_str(), "P02" | "P03" | "P26") {
        let n = c.n(6, 120);
        c.run(&Burst, n);
    }
    if c.id == "P03" {
        let n = c.n(24, 400);
        c.run(&Bulk, n);
    }
    match c.id.as_str() {
        "P17" => {
            let n = c.n(40_000, 2_000_000);
            c.run(&Conversions, n);
            let n = c.n(1000, 40_000);
            c.run(&NumStorage, n);
            let n = c.n(200, 6000);
            c.run(&NewIds, n);
            let n = c.n(30, 600);
            c.run(&FastInserts, n);
            let n = c.n(60, 1000);
            c.run(&AbuseProp, n);
            let n = c.n(60, 1000);
            c.run(&ProducerClient { name: "client-parallel", w: [2, 12, 2, 2, 1, 1, 1, 0, 3], faults: 0 }, n);
        }
        "P18" => {
            let n = c.n(150_000, 5_000_000);
            c.run(&Wire, n);
            let n = c.n(100, 2000);
            c.run(&AbuseProp, n);
        }
        "P14" => {
            let n = c.n(100, 3000);
            c.run(&ProducerClient { name: "client-prefix", w: [6, 0, 2, 0, 12, 0, 0, 0, 4], faults: 0 }, n);
        }
        "P15" => {
            let n = c.n(100, 3000);
            c.run(&ProducerClient { name: "client-metadata", w: [6, 0, 2, 0, 0, 12, 0, 0, 4], faults: 0 }, n);
            let n = c.n(24, 400);
            c.run(&Wide, n);
        }
        "P10" => {
            let p = SProfile { name: "crash-points", rule: "submissions ended in at least two ways", w: [6, 2, 14, 9, 6, 2, 0, 4, 2, 0, 0, 0, 0, 0, 0], len: (10, 36), spec: spec_crash, prefer: 2, expiration: 600_000, silence: false, real: false, nontrivial: |t| ["end:Completed", "end:Failed", "end:Cancelled"].iter().filter(|e| t.contains_key(**e)).count() >= 2 };
            let n = c.n(150, 4000);
            c.run(&CrashPoints(p), n);
            let n = c.n(80, 3000);
            c.run(&Kills, n);
        }
        "P16" => {
            let n = c.n(32, 320);
            c.run(&Cleaner, n);
        }
        "P19" => {
            let n = c.n(500, 12_000);
            c.run(&AbuseProp, n);
        }
        "P20" => {
            let n = c.n(4000, 100_000);
            c.run(&Stores, n);
        }
        "P21" => {
            let n = c.n(60_000, 3_000_000);
            c.run(&Contexts, n);
            let n = c.n(800, 16_000);
            c.run(&TraceServer, n);
        }
        "P22" => {
            let n = c.n(400, 10_000);
            c.run(&Upgrade, n);
        }
        "P23" => {
            let n = c.n(3000, 80_000);
            c.run(&Scripted { name: "scripted", silent: false, stall: false }, n);
            let n = c.n(150, 3000);
            c.run(&Scripted { name: "silence", silent: true, stall: false }, n);
            let n = c.n(24, 240);
            c.run(&Scripted { name: "stall", silent: false, stall: true }, n);
            let n = c.n(150, 4000);
            c.run(&ClientCrowd, n);
            let n = c.n(36, 600);
            c.run(&Bulk, n);
        }
        "P24" => {
            let n = c.n(300, 6000);
            c.run(&ProducerClient { name: "client-calls", w: [6, 2, 4, 4, 4, 3, 2, 1, 4], faults: 0 }, n);
            let n = c.n(300, 6000);
            c.run(&ProducerClient { name: "client-faults", w: [8, 1, 4, 4, 3, 3, 2, 1, 3], faults: 60 }, n);
        }
        "P28" => {
            let n = c.n(120, 2400);
            c.run(&Program, n);
            let n = c.n(12, 160);
            c.run(&Health, n);
            let n = c.n(16, 300);
            c.run(&Disk, n);
        }
        "P25" => {
            let n = c.n(150, 4000);
            c.run(&PyClients, n);
        }
        _ => {}
    }
    // many peers at the same time
    let crowd = |cancel, fail| Chaos { name: "crowd", flavour: Flavour::Plain, cancel, fail };
    let expiring = Chaos { name: "crowd-expiry", flavour: Flavour::Expiring, cancel: 2, fail: 4 };
    let silence = Chaos { name: "crowd-silence", flavour: Flavour::Silence, cancel: 2, fail: 4 };
    let (a, b, d, p) = match c.id.as_str() {
        "P01" | "P02" | "P03" | "P05" => (60, 0, 0, crowd(2, 4)),
        "P04" => (80, 0, 0, crowd(1, 12)),
        "P06" => (120, 0, 0, crowd(8, 3)),
        "P07" => (120, 60, 0, crowd(2, 4)),
        "P08" => (60, 60, 60, crowd(1, 6)),
        "P09" => (100, 30, 0, crowd(1, 6)),
        "P12" => (80, 40, 20, crowd(3, 4)),
        "P17" => (40, 0, 0, crowd(0, 1)),
        "P26" => (240, 120, 80, crowd(3, 4)),
        _ => return,
    };
    let n = c.n(a, a * 30);
    c.run(&p, n);
    if let n @ 1.. = match c.id.as_str() {
        "P01" | "P05" | "P08" => 16,
        "P09" | "P26" => 48,
        _ => 0,
    } {
        let n = c.n(n, n * 20);
        c.run(&Chaos { name: "crowd-locked", flavour: Flavour::Locked, cancel: 2, fail: 3 }, n);
    }
    if b > 0 {
        let n = c.n(b, b * 30);
        c.run(&expiring, n);
    }
    if d > 0 {
        let n = c.n(d, d * 30);
        c.run(&silence, n);
    }
}

fn main() {
    let mut c = Check::from_args("exploration");
    let id = c.id.clone();
    if let Some(p) = db_part(&id) {
        let n = c.n(800, 16_000);
        c.run(&DbHistory(p), n);
    }
    if let Some(p) = bulk_part(&id) {
        let n = c.n(48, 600);
        c.run(&DbHistory(p), n);
    }
    let srv = srv_parts(&id);
    if !srv.is_empty() || matches!(id.as_str(), "P17" | "P18" | "P19" | "P22" | "P23" | "P24" | "P25" | "P26" | "P28") {
        vharness::srv::warm_up();
    }
    for (p, n) in srv {
        let n = c.n(n, n * 20);
        c.run(&SrvHistory(p), n);
    }
    other_parts(&mut c);
    c.finish();
}
