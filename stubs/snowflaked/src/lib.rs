//! Offline stand-in for `snowflaked` (the channable fork is a git dependency that cannot be
//! fetched here). Same public API surface as opsqueue uses, same ID layout as the crate documents:
//! bit 63 unused, 41 bits timestamp (ms since epoch), 10 bits instance, 12 bits sequence.
use std::time::{SystemTime, UNIX_EPOCH};

pub trait Snowflake: Sized {
    fn from_parts(timestamp: u64, instance: u64, sequence: u64) -> Self;
    fn timestamp(&self) -> u64;
    fn instance(&self) -> u64;
    fn sequence(&self) -> u64;
}

impl Snowflake for u64 {
    fn from_parts(timestamp: u64, instance: u64, sequence: u64) -> Self {
        (timestamp << 22) | (instance << 12) | sequence
    }
    fn timestamp(&self) -> u64 {
        self >> 22
    }
    fn instance(&self) -> u64 {
        (self >> 12) & 0x3ff
    }
    fn sequence(&self) -> u64 {
        self & 0xfff
    }
}

pub mod sync {
    use super::*;
    use std::sync::atomic::{AtomicU64, Ordering};

    /// Lock-free generator; `last` is the last handed-out ID.
    pub struct Generator {
        last: AtomicU64,
        instance: u16,
    }

    impl Generator {
        pub const fn new(instance: u16) -> Self {
            assert!(instance < 1024);
            Self { last: AtomicU64::new(0), instance }
        }

        pub fn epoch(&self) -> SystemTime {
            UNIX_EPOCH
        }

        pub fn generate<T: From<u64>>(&self) -> T {
            loop {
                let now = UNIX_EPOCH.elapsed().map_or(0, |d| d.as_millis() as u64);
                let last = self.last.load(Ordering::Relaxed);
                let (lts, lseq) = (last.timestamp(), last.sequence());
                let (ts, seq) = if now > lts {
                    (now, 0)
                } else if lseq < 0xfff {
                    (lts, lseq + 1)
                } else {
                    std::thread::yield_now();
                    continue;
                };
                let next = u64::from_parts(ts, self.instance as u64, seq);
                if self
                    .last
                    .compare_exchange(last, next, Ordering::SeqCst, Ordering::Relaxed)
                    .is_ok()
                {
                    return T::from(next);
                }
            }
        }
    }
}
