//! The real server program as a separate process.
use crate::engine::*;
use crate::srv::Http;
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Real {
    pub child: Child,
    pub port: u16,
    pub file: String,
    pub log: String,
}

pub fn server_path() -> std::path::PathBuf {
    let mut p = std::env::current_exe().expect("current_exe");
    p.set_file_name("vserver");
    p
}

impl Real {
    /// Start the server on `file`. The port it chose is reported through a pipe.
    pub async fn start(file: &str, args: &[&str], env: &[(&str, &str)]) -> Result<Real, RunError> {
        let (mut r, w) = std::io::pipe().map_err(infra_err)?;
        let log = format!("{file}.log");
        let out = std::fs::OpenOptions::new().create(true).append(true).open(&log).map_err(infra_err)?;
        let mut c = Command::new(server_path());
        c.args(["--port", "0", "--report-bound-port-pipe", "0", "--database-filename", file]).args(args);
        c.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").env("OPSQUEUE_OTEL_DEFAULT_TRACE_SAMPLE_RATE", "0").env("OTEL_EXPORTER_OTLP_ENDPOINT", "http://127.0.0.1:1");
        c.env_remove("SENTRY_DSN");
        for (k, v) in env {
            c.env(k, v);
        }
        c.stdin(Stdio::from(w)).stdout(Stdio::null()).stderr(out);
        let child = c.spawn().map_err(|e| infra_err(format!("cannot start {}: {e}", server_path().display())))?;
        drop(c);
        let mut me = Real { child, port: 0, file: file.into(), log };
        let got = tokio::time::timeout(
            Duration::from_secs(60),
            tokio::task::spawn_blocking(move || {
                let mut b = [0u8; 2];
                r.read_exact(&mut b).map(|()| u16::from_be_bytes(b))
            }),
        )
        .await;
        match got {
            Ok(Ok(Ok(p))) if p != 0 => me.port = p,
            other => {
                let tail = me.tail();
                me.kill();
                return infra(format!("the server did not report its port: {other:?}; {tail}"));
            }
        }
        Ok(me)
    }
    pub fn tail(&self) -> String {
        let s = std::fs::read(&self.log).unwrap_or_default();
        String::from_utf8_lossy(&s[s.len().saturating_sub(600)..]).into_owned()
    }
    /// `None` while it runs
    pub fn exited(&mut self) -> Option<String> {
        match self.child.try_wait() {
            Ok(None) => None,
            Ok(Some(s)) => Some(format!("{s}")),
            Err(e) => Some(format!("{e}")),
        }
    }
    /// SIGKILL
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    /// Ctrl-C; true if it ended in time
    pub async fn interrupt(&mut self, within: Duration) -> bool {
        let _ = Command::new("kill").args(["-INT", &self.child.id().to_string()]).status();
        let end = Instant::now() + within;
        while Instant::now() < end {
            if self.exited().is_some() {
                return true;
            }
            tokio::time::sleep(Duration::from_millis(10)).await;
        }
        false
    }
    pub fn http(&self) -> Http {
        Http::new(self.port)
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        self.kill();
    }
}

/// The whole contents of the database (queue tables only), row by row, in a canonical order.
pub async fn dump(file: &str) -> Result<Vec<String>, RunError> {
    use sqlx::{Connection, Row};
    let mut c = crate::srv::open_reader(file).await?;
    let tables: Vec<String> = sqlx::query_scalar("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE '_sqlx%' ORDER BY name").fetch_all(&mut c).await.map_err(infra_err)?;
    let mut out = vec![];
    for t in tables {
        let cols: Vec<String> = sqlx::query(sqlx::AssertSqlSafe(format!("SELECT name FROM pragma_table_info('{t}') ORDER BY cid"))).fetch_all(&mut c).await.map_err(infra_err)?.iter().map(|r| r.get::<String, _>(0)).collect();
        let list = cols.iter().map(|c| format!("quote(\"{c}\")")).collect::<Vec<_>>().join(" || ',' || ");
        let mut rows: Vec<String> = sqlx::query_scalar(sqlx::AssertSqlSafe(format!("SELECT {list} FROM \"{t}\""))).fetch_all(&mut c).await.map_err(infra_err)?;
        rows.sort();
        out.extend(rows.into_iter().map(|r| format!("{t}: {r}")));
    }
    let _ = c.close().await;
    Ok(out)
}
