"""A second list, of changes that need something particular to show. Same form as mutants.py (MUT=mutants2 tools/mutate.py)."""
from mutants import S,C,D,R,M,SV,CN,ST,STR,PS,PC,CC,CO,DB,OS,TR,APP,SRV,PYC,PYP,PYCO,PY
M_=[]
def m(name,props,*edits): M_.append((name,props.split(),list(edits)))
m("t-reserve-capacity","P07 P26",(R,".time_to_live(reservation_expiration)",".max_capacity(2_000).time_to_live(reservation_expiration)"))
m("t-reserve-capacity-big","P07 P26",(R,".time_to_live(reservation_expiration)",".max_capacity(10_000).time_to_live(reservation_expiration)"))
m("t-strategy-limit","P11 P26 P09",(STR,'Oldest => qb.push("SELECT id as submission_id FROM submissions ORDER BY id ASC")','Oldest => qb.push("SELECT id as submission_id FROM submissions ORDER BY id ASC LIMIT 1000")'))
m("t-strategy-limit-in","P11 P26 P09",(STR,'", inner.underlying_row ASC")','", inner.underlying_row ASC LIMIT 256")'))
m("t-chunk-limit","P09 P26",(STR,'ORDER BY submission_id ASC"','ORDER BY submission_id ASC LIMIT 4096"'))
m("t-limit-cap","P09 P11",(ST,"                limit,\n                &self.stale","                limit.min(1024),\n                &self.stale"))
m("t-conn-max-reserved","P09 P26",(ST,"        let new_reservations = self\n","        if self.reservations.lock().expect(\"No poison\").len() > 500 { return Ok(Vec::new()); }\n        let new_reservations = self\n"))
m("t-json-float","P12",(M,"serde_json::to_string(&self.vals_to_counts)","serde_json::to_string(&self.vals_to_counts.iter().take(64).map(|e| (*e.key(), *e.value())).collect::<std::collections::BTreeMap<_, _>>())"))
m("t-meta-i32","P12",(STR,"CAST(ffi_counts.key AS INTEGER)","CAST(CAST(ffi_counts.key AS REAL) AS INTEGER)"))
m("t-cleanup-batch","P16",(S,'"DELETE FROM submissions_metadata\n                    WHERE submission_id IN (\n                        SELECT id FROM submissions_failed WHERE failed_at < julianday($1)\n                    );"','"DELETE FROM submissions_metadata\n                    WHERE submission_id IN (\n                        SELECT id FROM submissions_failed WHERE failed_at < julianday($1) LIMIT 20\n                    );"'))
m("t-cleanup-day","P16",(S,'DELETE FROM submissions_cancelled WHERE cancelled_at < julianday($1);','DELETE FROM submissions_cancelled WHERE cancelled_at < julianday(date($1));'))
m("t-cleanup-le-chunks","P16",(S,'"DELETE FROM chunks_failed WHERE failed_at < julianday($1);"','"DELETE FROM chunks_failed WHERE failed_at < julianday($1) AND skipped = 0;"'))
m("t-insert-dup-prefix","P14",(S,"WHERE prefix = $1\n            UNION ALL\n            SELECT id AS \"id: SubmissionId\" FROM submissions_cancelled WHERE prefix = $1","WHERE prefix = $1 AND chunks_done > 0\n            UNION ALL\n            SELECT id AS \"id: SubmissionId\" FROM submissions_cancelled WHERE prefix = $1"))
m("t-retry-negative","P04",(C,"fields.retries >= max_retries.into()","fields.retries >= i64::from(max_retries as u8).max(1)"))
m("t-fail-last-chunk","P04 P01",(C,"if fields.retries >= max_retries.into() {","if fields.retries >= max_retries.into() && !failure.is_empty() {"))
m("t-fail-text-trim","P04 P03",(C,"let ChunkId {\n                        submission_id,\n                        chunk_index,\n                    } = chunk_id;","let failure = failure.trim_end_matches('\\0').to_owned();\n                    let ChunkId {\n                        submission_id,\n                        chunk_index,\n                    } = chunk_id;"))
m("t-fail-text-long","P04 P03",(C,"let ChunkId {\n                        submission_id,\n                        chunk_index,\n                    } = chunk_id;","let failure: String = failure.chars().take(10_000).collect();\n                    let ChunkId {\n                        submission_id,\n                        chunk_index,\n                    } = chunk_id;"))
m("t-output-size","P03",(C,"let completed_work =\n","let output_content = output_content.filter(|c| c.len() < 1 << 20);\n                    let completed_work =\n"))
m("t-cancel-held","P06 P02",(C,"DELETE FROM chunks WHERE chunks.submission_id = $1;\n\n    RELEASE","DELETE FROM chunks WHERE chunks.submission_id = $1 AND chunks.retries = 0;\n\n    RELEASE"))
m("t-skip-retried-content","P01 P06",(C,"SELECT submission_id, chunk_index, input_content, '', 1, julianday($1)","SELECT submission_id, chunk_index, CASE WHEN retries > 0 THEN NULL ELSE input_content END, '', 1, julianday($1)"))
m("t-complete-retried","P02 P01",(C,"WHERE chunks.submission_id = $3 AND chunks.chunk_index = $4;","WHERE chunks.submission_id = $3 AND chunks.chunk_index = $4 AND chunks.retries < 3;"))
m("t-status-carrier","P21 P13",(S,"chunks_done, prefix, metadata, julianday($1), $2, otel_trace_carrier, chunk_size FROM submissions WHERE id = $3","chunks_done, prefix, metadata, julianday($1), $2, CASE WHEN length(otel_trace_carrier) < 300 THEN otel_trace_carrier ELSE '{}' END, chunk_size FROM submissions WHERE id = $3"))
m("t-completer-mailbox","P01 P26",(ST,".send(CompleterMessage::Complete {\n                id,\n                output_content,\n                reservation,\n            })\n            .await;",".try_send(CompleterMessage::Complete {\n                id,\n                output_content,\n                reservation,\n            });"))
m("t-completer-small","P26 P08",(SV,"tokio::sync::mpsc::channel(1024)","tokio::sync::mpsc::channel(1)"),(ST,"            .send(CompleterMessage::Fail {\n                id,\n                failure,\n                reservation,\n            })\n            .await;","            .try_send(CompleterMessage::Fail {\n                id,\n                failure,\n                reservation,\n            });"))
m("t-expired-other","P08 P07",(ST,"if !dispatcher\n            .reserver()\n            .is_reserved_by(&id, &self.stale_chunks_notifier)\n            && let","if let"))
m("t-drop-only-first","P08",(ST,"for (id, reservation) in reservations.iter() {","for (id, reservation) in reservations.iter().take(128) {"))
m("t-wait-once","P09",(CN,"                            let _ = tx2.send(RetryReservation {\n                                nonce: msg.nonce,","                            let _ = tx2.send(RetryReservation {\n                                nonce: msg.nonce & 0xffff_ffff,"))
m("t-heartbeat-data","P08 P23",(CN,"        self.heartbeat_interval.reset();\n        self.heartbeats_missed = 0;\n","        self.heartbeat_interval.reset();\n        if !matches!(msg, Message::Binary(_)) { self.heartbeats_missed = 0; }\n"))
m("t-text-msg","P19",(CN,"            _ => {\n                return Err(ConsumerConnError::UnexpectedWSMessageType(","            Message::Text(_) => {}\n            _ => {\n                return Err(ConsumerConnError::UnexpectedWSMessageType("))
m("t-count-size","P19 P03",(PS,"request.chunk_size.unwrap_or_default()","crate::common::chunk::ChunkSize(request.chunk_size.unwrap_or_default().0.clamp(1, i64::from(u32::MAX)))"))
m("t-prefix-trim","P14 P13",(PS,"(Some(prefix), contents)","(Some(prefix.trim().to_string()), contents)"))
m("t-lookup-prefix-decode","P14",(PS,"submission::db::lookup_id_by_prefix(&prefix, &mut conn)","submission::db::lookup_id_by_prefix(prefix.trim_end_matches('/'), &mut conn)"))
m("t-notify-if-nonempty","P09",(PS,"    state.notify_on_insert.notify_waiters();","    if submission_id.timestamp().timestamp_subsec_millis() % 16 != 3 { state.notify_on_insert.notify_waiters(); }"))
m("t-cancel-writer-lost","P06 P24",(PS,"            Err((StatusCode::CONFLICT, Json(not_cancellable_err)).into_response())","            if let crate::common::errors::SubmissionNotCancellable::Cancelled(_) = not_cancellable_err { return Ok(()); }\n            Err((StatusCode::CONFLICT, Json(not_cancellable_err)).into_response())"))
m("t-os-256","P20",(OS,"self.0.base_path, submission_prefix, chunk_index, chunk_type","self.0.base_path, submission_prefix, u64::from(chunk_index) % 256, chunk_type"))
m("t-os-create-only","P20 P25",(OS,"            .put(&path, content.into())\n            .await\n","            .put_opts(&path, content.into(), object_store::PutMode::Create.into())\n            .await\n            .or_else(|e| if matches!(e, object_store::Error::AlreadyExists { .. }) { Ok(object_store::PutResult { e_tag: None, version: None, extensions: Default::default() }) } else { Err(e) })\n"))
m("t-os-trim-empty","P20",(OS,"            Some((element, new_state))","            if index > u63::new(0) && matches!(&element, Ok(e) if e.is_empty()) { return None; }\n            Some((element, new_state))"))
m("t-os-last-missing","P20",(OS,"            Some((element, new_state))","            if index + u63::new(1) == chunk_count && chunk_count > u63::new(4) && element.is_err() { return None; }\n            Some((element, new_state))"))
m("t-os-prefix-part","P20",(OS,"Path::from(format!(\n            \"{}/{}/{}-{}.bin\",","Path::from(format!(\n            \"{}/{:.40}/{}-{}.bin\","))
m("t-tr-tracestate","P21",(TR,"propagator.extract(&hashmap)\n    })","let mut hashmap = hashmap; hashmap.retain(|_, v| v.len() <= 256); propagator.extract(&hashmap)\n    })"))
m("t-id-seq","P17",(S,"__none__","")) if False else None
m("t-wal-passive","P28",(DB,"PRAGMA wal_checkpoint(RESTART);","PRAGMA wal_checkpoint(PASSIVE);"),(DB,'.pragma("journal_size_limit", format!("{}", 4 * 1024 * 1024))','.pragma("journal_size_limit", "-1")'))
m("t-busy-timeout","P09 P26",(DB,".busy_timeout(Duration::from_secs(5)) // Matches",".busy_timeout(Duration::from_millis(1)) // Matches"))
m("t-read-pool-min","P28",(DB,".max_connections(max_read_pool_size.into())",".max_connections(u32::from(max_read_pool_size).clamp(1, 4))"))
m("t-shutdown-flag","P28",(SRV,"    // Set to unhealthy when shutting down\n    app_healthy_flag.store(false","    // Set to unhealthy when shutting down\n    app_healthy_flag.store(true"))
m("t-retry-bind","P28",(SRV,".with_max_times(10)",".with_max_times(0)"))
m("t-port-le","P28",("opsqueue/src/config.rs","u16::to_be_bytes(port)","u16::to_le_bytes(port)"))
m("t-panic-kill","P19",(SRV,"    routes.layer(tower_http::catch_panic::CatchPanicLayer::custom(\n        handle_panic,\n    ))","    routes"),(SRV,"fn handle_panic(","#[allow(dead_code)]\nfn handle_panic("))
m("t-wal-nolimit","P28",(DB,'.pragma("journal_size_limit", format!("{}", 4 * 1024 * 1024))','.pragma("journal_size_limit", "-1")'))
m("t-wal-never","P28",(DB,'    let res: (i32, i32, i32) = sqlx::query_as("PRAGMA wal_checkpoint(RESTART);")','    if Arc::strong_count(&Arc::new(())) == 1 { return Ok(()); }\n    let res: (i32, i32, i32) = sqlx::query_as("PRAGMA wal_checkpoint(RESTART);")'.replace("Arc::strong_count(&Arc::new(())) == 1","std::hint::black_box(true)")))
m("t-wal-insert-only","P28",("opsqueue/app/main.rs","let checkpoint_handle = scope.spawn(db_pool.periodically_checkpoint_wal());","let checkpoint_handle = scope.spawn(std::future::pending::<()>());"))
