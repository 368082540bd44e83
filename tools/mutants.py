"""Realistic small changes, each breaking at least one property: (name, properties expected to notice, [(file, old, new)...]).
Used by tools/mutate.py while developing, never by a check."""
S="opsqueue/src/common/submission.rs"; C="opsqueue/src/common/chunk.rs"; D="opsqueue/src/consumer/dispatcher/mod.rs"
R="opsqueue/src/consumer/dispatcher/reserver.rs"; M="opsqueue/src/consumer/dispatcher/metastate.rs"; SV="opsqueue/src/consumer/server/mod.rs"
CN="opsqueue/src/consumer/server/conn.rs"; ST="opsqueue/src/consumer/server/state.rs"; STR="opsqueue/src/consumer/strategy.rs"
PS="opsqueue/src/producer/server.rs"; PC="opsqueue/src/producer/client.rs"; CC="opsqueue/src/consumer/client.rs"; CO="opsqueue/src/consumer/common.rs"
DB="opsqueue/src/db/mod.rs"; OS="opsqueue/src/object_store/mod.rs"; TR="opsqueue/src/tracing.rs"; APP="opsqueue/app/main.rs"; SRV="opsqueue/src/server.rs"
PYC="libs/opsqueue_python/src/consumer.rs"; PYP="libs/opsqueue_python/src/producer.rs"; PYCO="libs/opsqueue_python/src/common.rs"; PY="libs/opsqueue_python/python/opsqueue"
M_=[]
def m(name,props,*edits): M_.append((name,props.split(),list(edits)))

# ---- storage
m("rows-per-query","P01 P03",(C,"b.push_bind(chunk.submission_id)\n                    .push_bind(chunk.chunk_index)","b.push_bind(chunk.submission_id)\n                    .push_bind(ChunkIndex::from(u63::new(u64::from(chunk.chunk_index) % 60000)))"))
m("retry-off-by-one","P04",(C,"fields.retries >= max_retries.into()","fields.retries > max_retries.into()"))
m("retry-reset-on-complete","P04",(C,"UPDATE submissions SET chunks_done = chunks_done + 1 WHERE submissions.id = $1 RETURNING submissions.chunk_size;\",\n            chunk_id.submission_id,\n        )\n        .fetch_one(tx.get_inner())\n        .await\n","UPDATE submissions SET chunks_done = chunks_done + 1 WHERE submissions.id = $1 RETURNING submissions.chunk_size;\",\n            chunk_id.submission_id,\n        )\n        .fetch_one({ query!(\"UPDATE chunks SET retries = 0 WHERE submission_id = $1\", chunk_id.submission_id).execute(tx.get_inner()).await?; tx.get_inner() })\n        .await\n"))
m("retries-shared","P04",(C,"UPDATE chunks SET retries = retries + 1\n        WHERE submission_id = $1 AND chunk_index = $2","UPDATE chunks SET retries = retries + 1\n        WHERE submission_id = $1 AND chunk_index >= $2"))
m("skipped-failure-text","P04",(C,"SELECT submission_id, chunk_index, input_content, '', 1, julianday($1)","SELECT submission_id, chunk_index, input_content, '', 0, julianday($1)"))
m("failed-at-wrong","P13",(C,"SELECT submission_id, chunk_index, input_content, $1, julianday($2) FROM chunks","SELECT submission_id, chunk_index, input_content, $1, julianday(date($2)) FROM chunks"))
m("fail-loses-input","P01 P03",(C,"SELECT submission_id, chunk_index, input_content, $1, julianday($2) FROM chunks","SELECT submission_id, chunk_index, NULL, $1, julianday($2) FROM chunks"))
m("complete-split-tx","P10",(C,"let completed_work =\n                        complete_chunk_raw(chunk_id, output_content, &mut tx).await?;\n                    crate","let completed_work =\n                        complete_chunk_raw(chunk_id, output_content, &mut tx).await?;\n                    { sqlx::query(\"COMMIT\").execute(tx.get_inner()).await?; sqlx::query(\"BEGIN\").execute(tx.get_inner()).await?; }\n                    crate"))
m("cancel-split-tx","P10",(S,"cancel_submission_raw(id, &mut conn).await?;\n        super","cancel_submission_raw(id, &mut conn).await?;\n        { sqlx::query(\"COMMIT\").execute(conn.get_inner()).await.map_err(DatabaseError::from)?; sqlx::query(\"BEGIN\").execute(conn.get_inner()).await.map_err(DatabaseError::from)?; }\n        super"))
m("complete-when-ge","P02",(S,"if submission.chunks_done == submission.chunks_total {","if submission.chunks_done >= submission.chunks_total || u64::from(submission.chunks_total) == u64::from(submission.chunks_done) + 1 && u64::from(submission.chunks_total) > 6 {"))
m("cancel-keeps-chunks","P06 P01",(S,"super::chunk::db::skip_remaining_chunks(id, conn).await?;\n        Ok(())\n    }\n\n    #[tracing::instrument(skip(conn))]\n    pub(super) async fn cancel","Ok(())\n    }\n\n    #[tracing::instrument(skip(conn))]\n    pub(super) async fn cancel"))
m("fail-keeps-metadata-of-other","P13",(S,"SELECT id, chunks_total, chunks_done, prefix, metadata, julianday($1), $2, otel_trace_carrier, chunk_size FROM submissions WHERE id = $3;","SELECT id, chunks_total, chunks_done + 1, prefix, metadata, julianday($1), $2, otel_trace_carrier, chunk_size FROM submissions WHERE id = $3;"))
m("cancel-done-count","P13 P06",(S,"SELECT id, chunks_total, prefix, metadata, julianday($1), chunks_done FROM submissions WHERE id = $2;","SELECT id, chunks_total, prefix, metadata, julianday($1), 0 FROM submissions WHERE id = $2;"))
m("status-order","P05 P26",(S,"        let submission_row = query!(\n            r#\"\n        SELECT\n              id AS","        let early = query!(\"SELECT id FROM submissions_completed WHERE id = $1\", id).fetch_optional(conn.get_inner()).await?;\n        let submission_row = query!(\n            r#\"\n        SELECT\n              id AS"),(S,"        if let Some(row) = completed_row_opt {","        if let Some(row) = completed_row_opt.filter(|_| early.is_some()) {"))
m("lookup-limit","P15",(S,"if ids.len() as u64 > u64::from(max_submissions) {","if ids.len() as u64 >= u64::from(max_submissions) {"))
m("lookup-truncates","P15",(S,"let limit = (u64::from(max_submissions) + 1).cast_signed();","let limit = u64::from(max_submissions).cast_signed();"))
m("lookup-any-key","P15",(S,"query_builder.push(format!(\" AND s{i}.metadata_key = \"));\n            query_builder.push_bind(key.clone());","query_builder.push(format!(\" AND s{i}.metadata_key LIKE \"));\n            query_builder.push_bind(key.clone());"))
m("lookup-order","P15",(S," ORDER BY s0.submission_id LIMIT "," ORDER BY s0.metadata_value, s0.submission_id DESC LIMIT "))
m("prefix-like","P14",(S,"FROM submissions_failed WHERE prefix = $1","FROM submissions_failed WHERE prefix LIKE $1"))
m("cleanup-late-metadata","P16",(S,"SELECT id FROM submissions_cancelled WHERE cancelled_at < julianday($1)\n                    );","SELECT id FROM submissions_cancelled WHERE cancelled_at > julianday($1)\n                    );"))
m("cleanup-running-chunks","P16",(S,"\"DELETE FROM chunks_failed WHERE failed_at < julianday($1);\"","\"DELETE FROM chunks_failed WHERE failed_at < julianday($1) AND skipped = 0;\""))
m("cleanup-no-cancelled","P16",(S,"\"DELETE FROM submissions_cancelled WHERE cancelled_at < julianday($1);\"","\"DELETE FROM submissions_cancelled WHERE cancelled_at < julianday($1, '-1 day');\""))
m("fail-submission-order","P04",(S,"fail_submission_raw(id, failed_chunk_index, &mut conn).await?;\n        super::chunk::db::move_chunk_to_failed_chunks(","fail_submission_raw(id, u63::new(0).into(), &mut conn).await?;\n        super::chunk::db::move_chunk_to_failed_chunks("))
m("metadata-null-empty","P13 P03",(S,"            submission.metadata,\n            submission.otel_trace_carrier,\n            submission.chunk_size.0,","            submission.metadata.as_ref().filter(|m| !m.is_empty()),\n            submission.otel_trace_carrier,\n            submission.chunk_size.0,"))
m("chunk-empty-content","P03",(C,"                    .push_bind(chunk.input_content);","                    .push_bind(chunk.input_content.filter(|c| !c.is_empty()));"))
m("output-empty","P03",(C,"complete_chunk_raw(chunk_id, output_content, &mut tx).await?;","complete_chunk_raw(chunk_id, output_content.filter(|c| !c.is_empty()), &mut tx).await?;"))
m("id-clock","P17",(S,"        let submission_id = SubmissionId::new();\n        let len = chunks_contents","        let submission_id = SubmissionId::from(u63::new(u64::from(SubmissionId::new()) & !0xff));\n        let len = chunks_contents"))

# ---- strategies and balancing
m("newest-chunk-order","P11",(STR,"ORDER BY submission_id DESC\"","ORDER BY submission_id DESC, chunk_index DESC\""))
m("oldest-ties","P11",(STR,"qb.push(\", inner.underlying_row ASC\")","qb.push(\", inner.submission_id ASC\")"))
m("nulls-last","P12 P11",(STR,"ASC NULLS FIRST","ASC NULLS LAST"))
m("meta-key-order","P12",(STR,"for i in 0..meta_keys.len() {\n                    qb.push(if i == 0","for (i, _) in meta_keys.iter().enumerate().take(2) {\n                    qb.push(if i == 0"))
m("counts-cast","P12",(STR,"ON sm.metadata_value = CAST(ffi_counts.key AS INTEGER)","ON sm.metadata_value = ABS(CAST(ffi_counts.key AS INTEGER))"))
m("random-gap","P11 P26",(STR,"push_select(qb, \">=\");","push_select(qb, \">\");"))
m("meta-decrement-all","P12",(M,".and_modify(|count| *count -= 1)\n            && *entry.get() == 0","\n            .and_modify(|count| *count -= 1)\n            && *entry.get() <= 1"))
m("meta-release-skips","P12",(D,"self.remove_metadata(&reservation.metadata);\n        self.reserver\n            .finish_own_reservation_sync","if reservation.metadata.len() < 2 { self.remove_metadata(&reservation.metadata); }\n        self.reserver\n            .finish_own_reservation_sync"))

# ---- reservations and connections
m("no-delayed-removal","P07",(SV,"let delayed = db_res.is_ok();","let delayed = false;"))
m("fail-delayed","P09 P08",(SV,"let delayed = *failed_permanently.as_ref().unwrap_or(&false);","let delayed = !*failed_permanently.as_ref().unwrap_or(&false);"))
m("expiry-silent","P08 P09",(R,"if cause == RemovalCause::Expired {","if cause == RemovalCause::Size {"))
m("ttl-idle","P08",(R,".time_to_live(reservation_expiration)",".time_to_idle(reservation_expiration)"))
m("drop-keeps","P08",(ST,"for (id, reservation) in reservations.iter() {","for (id, reservation) in reservations.iter().take(3) {"))
m("heartbeat-no-reset","P08",(CN,"self.heartbeats_missed = 0;\n\n        match msg","if matches!(msg, Message::Binary(_)) { self.heartbeats_missed = 0; }\n\n        match msg"))
m("heartbeat-never","P08",(CN,"self.heartbeats_missed += 1;","self.heartbeats_missed = 1;"))
m("heartbeat-pong-only","P08",(CN,"if self.heartbeats_missed > self.max_missable_heartbeats {","if self.heartbeats_missed >= self.max_missable_heartbeats {"))
m("retry-max-one","P09 P11",(CN,"                                max,\n                                strategy,\n                            });","                                max: 1,\n                                strategy,\n                            });"))
m("retry-nonce","P23 P09",(CN,"                                nonce: msg.nonce,\n                                max,","                                nonce: msg.nonce.max(1),\n                                max,"))
m("db-error-empty","P09",(CN,"Ok(vals) if !vals.is_empty() => Some(ChunksReserved(Ok(vals))),","Ok(vals) if !vals.is_empty() || max > 50 => Some(ChunksReserved(Ok(vals))),"))
m("completer-order","P02 P07",(SV,"tokio::sync::mpsc::channel(1024)","tokio::sync::mpsc::channel(1)"))
m("complete-needs-no-db","P07 P01",(ST,"let reservation = self.take_reservation(id);\n        // Only","let reservation = self.take_reservation(id);\n        if reservation.is_none() { return; }\n        // Only"))
m("notify-one","P09",(PS,"state.notify_on_insert.notify_waiters();","state.notify_on_insert.notify_one();"))
m("notify-first","P09",(PS,"    let mut conn = state.pool.writer_conn().await?;\n    let (prefix","    state.notify_on_insert.notify_waiters();\n    let mut conn = state.pool.writer_conn().await?;\n    let (prefix"),(PS,"    // We've done a new insert! Let's tell any waiting consumers!\n    state.notify_on_insert.notify_waiters();",""))
m("limit-zero-ok","P19",(ST,"        if limit == 0 {\n            return Err(E::R(IncorrectUsage(LimitIsZero())));\n        }\n",""))

# ---- producer server and client
m("cancel-404-409","P06 P24",(PS,"Err((StatusCode::CONFLICT, Json(not_cancellable_err)).into_response())","Err((StatusCode::GONE, Json(not_cancellable_err)).into_response())"))
m("count-swap","P01 P24",(PS,"let count = submission::db::count_submissions_completed(&mut conn).await?;","let count = submission::db::count_submissions_failed(&mut conn).await?;"))
m("client-retries-all","P24",(PC,"                    // Anything else is a permanent failure.\n                    false","                    // Anything else is a permanent failure.\n                    true"))
m("client-no-retry","P24",(PC,"if inner.is_connect() || inner.is_timeout() || inner.is_decode() {","if inner.is_timeout() || inner.is_decode() {"))
m("client-cancel-404","P24",(PC,"StatusCode::OK => Ok(()),","StatusCode::OK | StatusCode::BAD_GATEWAY => Ok(()),"))
m("client-lookup-400","P24 P15",(PC,"                    Err(L(too_many_err))\n","                    { let _ = too_many_err; Ok(Vec::new()) }\n"))

# ---- consumer client
m("nonce-race","P23",(CC,"let mut guard = self.0.1.lock().await;\n        // This is called within the lock, so we know the nonce and the oneshot_sender are inserted atomically.\n        let nonce = self.next_nonce();","let nonce = self.next_nonce();\n        tokio::task::yield_now().await;\n        let mut guard = self.0.1.lock().await;"))
m("client-expired-ignored","P23",(CC,"let _ = unused_chunks.0.send((chunk_id, \"Reservation expired\"));","let _ = chunk_id;"))
m("client-missed-beats","P23",(CC,"heartbeats_missed = 0;\n                    match msg","if !matches!(&msg, Some(Ok(m)) if m.is_ping()) { heartbeats_missed = 0; }\n                    match msg"))
m("client-no-clear","P23",(CC,"        in_flight_requests.clear().await;\n    }","    }"))
m("client-fail-text","P23 P25",(CC,"ClientToServerMessage::FailChunk { id, failure },","ClientToServerMessage::FailChunk { id, failure: failure.trim().to_string() },"))
m("client-health","P23",(CC,"!self.connection_lost.is_cancelled()","!self.connection_lost.is_cancelled() || Arc::strong_count(&self.ws_sink) > 2"))

# ---- migrations and db
m("wal-off","P10",(DB,".journal_mode(SqliteJournalMode::Wal)",".journal_mode(SqliteJournalMode::Memory)"))
m("ignore-missing","P22",(DB,".set_ignore_missing(true)",".set_ignore_missing(false)"))

# ---- object store, tracing
m("os-path-mod","P20 P25",(OS,"self.0.base_path, submission_prefix, chunk_index, chunk_type\n        ))","self.0.base_path, submission_prefix, u64::from(chunk_index) % 100, chunk_type\n        ))"))
m("os-no-base","P20",(OS,"\"{}/{}/{}-{}.bin\",\n            self.0.base_path, submission_prefix","\"{}/{}-{}.bin\",\n            submission_prefix"))
m("os-count","P20 P25",(OS,"Ok(chunk_index + u63::new(1))","Ok(if content_empty { chunk_index } else { chunk_index + u63::new(1) })"),(OS,"|chunk_index, chunk_content| async move {","|chunk_index, chunk_content| async move {\n                let content_empty = chunk_content.is_empty();"))
m("os-range","P20 P25",(OS,"if index >= chunk_count {","if index > chunk_count {"))
m("os-error-swallow","P20 P25",(OS,"            Some((element, new_state))","            if element.is_err() { return None; }\n            Some((element, new_state))"))
m("tr-no-baggage","P21",(TR,"        Box::new(BaggagePropagator::new()),\n",""))
m("tr-json-empty","P21",(TR,"serde_json::from_str(json).unwrap_or_default()","{ let mut m: CarrierMap = serde_json::from_str(json).unwrap_or_default(); m.retain(|k, _| k != \"tracestate\"); m }"))
m("tr-no-parent","P21",(TR,"propagator.extract(&HeaderExtractor(headers))","{ let _ = (propagator, headers); Context::new() }"))

# ---- application
m("metrics-gauge-stuck","P27",("opsqueue/src/prometheus.rs","gauge!(OPERATIONS_BACKLOG_GAUGE).set(ops_backlog_count);","if ops_backlog_count > 0.0 { gauge!(OPERATIONS_BACKLOG_GAUGE).set(ops_backlog_count); }"))
m("metrics-time","P27",("opsqueue/src/prometheus.rs","(td.num_seconds() as f64) + f64::from(td.subsec_nanos()) / NANOS_PER_SEC","(td.num_seconds() as f64) + f64::from(td.subsec_nanos()) / NANOS_PER_SEC * 1000.0"))
m("app-max-age","P16",(APP,"let max_age = config.max_submission_age.into();","let max_age = config.reservation_expiration.into();"))
m("app-reservation-exp","P28",(APP,"config.reservation_expiration.into(),","config.max_submission_age.into(),"))

# ---- Python
m("py-batched","P25",(PY+"/producer.py","itertools.batched(iter, chunk_size),","itertools.batched(iter, min(chunk_size, 64)),"))
m("py-json-ascii","P25",(PY+"/common.py","return json.dumps(obj).encode()","return json.dumps(obj, default=str).encode()"))
m("py-complete-first","P25",(PYC,"                    self.object_store_client\n                        .store_chunk(","                    self.client\n                        .complete_chunk(chunk_id, None)\n                        .await\n                        .map_err(|e| CError(R(R(e))))?;\n                    self.object_store_client\n                        .store_chunk("))
m("py-base-exc","P25",(PYC,"if !Python::attach(|py| failure.is_instance_of::<PyException>(py)) {","if Python::attach(|py| failure.is_instance_of::<pyo3::exceptions::PyKeyboardInterrupt>(py)) {"))
m("py-fatal-nofail","P25",(PYC,"                    let failure_str = crate::common::format_pyerr(&failure);","                    if !Python::attach(|py| failure.is_instance_of::<PyException>(py)) {\n                        return Err(failure.into());\n                    }\n                    let failure_str = crate::common::format_pyerr(&failure);"))
m("py-empty-input","P25",("libs/opsqueue_python/src/common.rs","if let Some(bytes) = c.input_content {","if let Some(bytes) = c.input_content.filter(|b| !b.is_empty()) {"))
m("py-strategy","P25",("libs/opsqueue_python/src/common.rs","impl From<&Strategy> for strategy::Strategy {\n    fn from(val: &Strategy) -> Self {\n        match val {\n            Strategy::Oldest() => strategy::Strategy::Oldest,","impl From<&Strategy> for strategy::Strategy {\n    fn from(val: &Strategy) -> Self {\n        match val {\n            Strategy::Oldest() => strategy::Strategy::Newest,"))
m("py-strategy-nest","P25",("libs/opsqueue_python/src/common.rs","                let underlying = strategy::Strategy::from(underlying.get());\n                strategy::Strategy::PreferDistinct {\n                    meta_key: meta_key.clone(),","                let underlying = match strategy::Strategy::from(underlying.get()) { strategy::Strategy::PreferDistinct { .. } => strategy::Strategy::Random, s => s };\n                strategy::Strategy::PreferDistinct {\n                    meta_key: meta_key.clone(),"))
m("py-status-cancel-done","P25",("libs/opsqueue_python/src/common.rs","            chunks_done: value.chunks_done.into(),\n            metadata: value.metadata,\n            strategic_metadata: value.strategic_metadata,\n            cancelled_at","            chunks_done: value.chunks_total.into(),\n            metadata: value.metadata,\n            strategic_metadata: value.strategic_metadata,\n            cancelled_at"))
m("py-metadata-lost","P25",(PYP,"                    metadata,\n                    strategic_metadata: strategic_metadata.unwrap_or_default(),\n                };\n                self.client","                    metadata: metadata.filter(|m| !m.is_empty()),\n                    strategic_metadata: strategic_metadata.unwrap_or_default(),\n                };\n                self.client"))
m("py-async-parent","P25",(PYP,"Some(Err(e)) => Err(e.into()),\n                }\n            })),\n        )\n    }","Some(Err(_)) => Err(PyStopAsyncIteration::new_err(())),\n                }\n            })),\n        )\n    }"))
m("py-iter-error-uploads","P25",(PYP,"|item| item.extract()).map_err(Into::into)))","|item| item.extract()).map_err(Into::into)).filter(|r: &Result<Vec<u8>, anyhow::Error>| r.is_ok()))"))
m("py-unchunk","P25",(PY+"/producer.py","itertools.batched(iter, chunk_size)","itertools.batched((o for o in iter if o is not None), chunk_size)"))
m("py-trace","P25 P21",(PY+"/consumer.py","chunk.submission_otel_trace_carrier\n    )","{k: v for k, v in chunk.submission_otel_trace_carrier.items() if k != \"baggage\"}\n    )"))
m("health-always","P28",(SRV,"app_healthy_flag.store(is_app_healthy, std::sync::atomic::Ordering::Relaxed);","app_healthy_flag.fetch_or(is_app_healthy, std::sync::atomic::Ordering::Relaxed);"))
m("max-submissions-off","P15",("opsqueue/src/common/mod.rs","if u64::from(value) < i64::MAX as u64 {","if u64::from(value) <= i64::MAX as u64 {"))
m("write-pool-two","P10 P01",(DB,"        .min_connections(1)\n        .max_connections(1)","        .min_connections(1)\n        .max_connections(4)"))
m("fk-off","P01",(DB,".foreign_keys(true)",".foreign_keys(false)"))
m("no-checkpoint","P28",(APP,"let checkpoint_handle = scope.spawn(db_pool.periodically_checkpoint_wal());","let checkpoint_handle = scope.spawn(std::future::pending::<()>());"))
m("sub-id-deser","P18 P17",(S,"        let value = u64::deserialize(deserializer)?;\n\n        value.try_into()","        let value = i64::deserialize(deserializer)?.unsigned_abs();\n\n        value.try_into()"))
