"""Edits that keep the behaviour, all applied at once: every check has to stay quiet (MUT=benign tools/mutate.py)."""
from mutants import S,C,D,R,M,SV,CN,ST,STR,PS,PC,CC,CO,DB,OS,TR,APP,SRV,PYC,PYP,PYCO,PY
E=[
(D,"        self.remove_metadata(&reservation.metadata);\n        self.reserver\n            .finish_own_reservation(&id, &reservation.owner, delayed)\n            .await","        let started_at = self\n            .reserver\n            .finish_own_reservation(&id, &reservation.owner, delayed)\n            .await;\n        self.remove_metadata(&reservation.metadata);\n        started_at"),
(D,"        for (name, value) in metadata {\n            self.metastate.increment(name, *value);\n        }","        let mut sorted: Vec<_> = metadata.iter().collect();\n        sorted.sort();\n        sorted\n            .iter()\n            .for_each(|(name, value)| self.metastate.increment(name, **value));"),
(PS,"    let _ = db::perform_explicit_wal_checkpoint(conn).await;\n\n    // We've done a new insert! Let's tell any waiting consumers!\n    state.notify_on_insert.notify_waiters();\n","    // We've done a new insert! Let's tell any waiting consumers!\n    state.notify_on_insert.notify_waiters();\n    let _ = db::perform_explicit_wal_checkpoint(conn).await;\n"),
(C,"const ROWS_PER_QUERY: usize = 1000;","const ROWS_PER_QUERY: usize = 300;"),
(STR,'ORDER BY submission_id ASC"','ORDER BY submission_id ASC, chunk_index DESC"'),
(STR,'ORDER BY submission_id DESC"','ORDER BY submission_id DESC, chunk_index ASC"'),
(R,"self.reservations.contains_key(key)","self.reservations.get(key).is_some()"),
(R,"Duration::from_millis(10)) => {}","Duration::from_millis(15)) => {}"),
(M,".and_modify(|count| *count += 1)\n            .or_insert(1);",".and_modify(|count| *count = count.saturating_add(1))\n            .or_insert(1);"),
(SV,"self.count.is_multiple_of(100)","self.count.is_multiple_of(50)"),
(SV,"tokio::sync::mpsc::channel(1024)","tokio::sync::mpsc::channel(64)"),
(ST,"for (id, reservation) in reservations.iter() {\n            let _ = self.server_state.dispatcher.release_sync(*id, reservation);\n        }","let mut all: Vec<_> = reservations.iter().collect();\n        all.sort_by_key(|(id, _)| **id);\n        for (id, reservation) in all {\n            let _ = self.server_state.dispatcher.release_sync(*id, reservation);\n        }"),
(S,"    cancel_submission_raw(id, &mut conn).await?;\n        super::chunk::db::skip_remaining_chunks(id, conn).await?;\n        Ok(())","    cancel_submission_raw(id, &mut conn).await?;\n        Ok(super::chunk::db::skip_remaining_chunks(id, conn).await?)"),
(S,"        if ids.len() as u64 > u64::from(max_submissions) {\n            Err(E::R(TooManyMatchingSubmissions(u64::from(max_submissions))))\n        } else {\n            Ok(ids)\n        }","        let max = u64::from(max_submissions);\n        match ids.len() as u64 {\n            n if n <= max => Ok(ids),\n            _ => Err(E::R(TooManyMatchingSubmissions(max))),\n        }"),
(OS,"            let new_state = (client, prefix, index + u63::new(1));\n\n            Some((element, new_state))","            let next = index + u63::new(1);\n            Some((element, (client, prefix, next)))"),
(TR,"        Box::new(BaggagePropagator::new()),\n        Box::new(TraceContextPropagator::new()),","        Box::new(TraceContextPropagator::new()),\n        Box::new(BaggagePropagator::new()),"),
(DB,"const EXPLICIT_WAL_CHECK_INTERVAL: Duration = Duration::from_millis(100);","const EXPLICIT_WAL_CHECK_INTERVAL: Duration = Duration::from_millis(150);"),
(SRV,"    routes.layer(tower_http::catch_panic::CatchPanicLayer::custom(\n        handle_panic,\n    ))","    let catch_panics = tower_http::catch_panic::CatchPanicLayer::custom(handle_panic);\n    routes.layer(catch_panics)"),
(CN,"        if self.heartbeats_missed > self.max_missable_heartbeats {\n            tracing::warn!(\"Too many heartbeat misses, closing connection.\");\n            Err(ConsumerConnError::HeartbeatFailure)\n        } else {","        if self.heartbeats_missed >= self.max_missable_heartbeats + 1 {\n            tracing::warn!(\"Too many heartbeat misses, closing connection.\");\n            Err(ConsumerConnError::HeartbeatFailure)\n        } else {"),
("opsqueue/src/prometheus.rs","const METRICS_INTERVAL: std::time::Duration = std::time::Duration::from_secs(5);","const METRICS_INTERVAL: std::time::Duration = std::time::Duration::from_secs(4);"),
]
M_=[("benign-"+"%02d"%i,["P%02d"%i],E) for i in range(1,29)]
