//! Scratch directories, template databases, runtimes.
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A scratch directory that is removed on drop. Everything a case writes lives here.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = scratch_base();
        let p = base.join(format!("case-{}", NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).display().to_string()
    }
}
impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch_base() -> &'static PathBuf {
    static BASE: OnceLock<PathBuf> = OnceLock::new();
    BASE.get_or_init(|| {
        let name = format!("vharness-{}", std::process::id());
        for root in ["/dev/shm", "/tmp"] {
            let p = Path::new(root).join(&name);
            if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok() {
                return p;
            }
        }
        panic!("no scratch directory");
    })
}

/// Remove everything this process left in the scratch area.
pub fn cleanup_scratch() {
    let _ = std::fs::remove_dir_all(scratch_base());
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime")
}
pub fn rt_multi(n: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().expect("runtime")
}

/// Path of an empty, fully migrated database made by opsqueue's own start-up code.
pub fn template_db() -> &'static Path {
    static T: OnceLock<(Scratch, PathBuf)> = OnceLock::new();
    &T.get_or_init(|| {
        std::thread::spawn(|| {
            let s = Scratch::new();
            let f = s.path().join("template.db");
            let first = s.file("first.db");
            rt_multi(2).block_on(async {
                use sqlx::Connection;
                let pools = opsqueue::db::open_and_setup(&first, std::num::NonZero::new(16).unwrap()).await;
                let mut c = sqlx::SqliteConnection::connect(&format!("sqlite://{first}")).await.expect("open");
                sqlx::query(sqlx::AssertSqlSafe(format!("VACUUM INTO '{}'", f.display()))).execute(&mut c).await.expect("vacuum into");
                drop(c);
                drop(pools);
            });
            (s, f)
        })
        .join()
        .expect("template db")
    })
    .1
}

/// A fresh migrated database file in `dir`.
pub fn fresh_db(dir: &Path) -> String {
    let p = dir.join("q.db");
    std::fs::copy(template_db(), &p).expect("copy template");
    p.display().to_string()
}
