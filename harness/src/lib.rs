//! Shared engine of the property-based checks: seeded generation, parallel case execution,
//! confirmation, shrinking, replay files, known findings and evidence.
pub mod abuse;
pub mod engine;
pub mod prod;
pub mod program;
pub mod py;
pub mod real;
pub mod rng;
pub mod trace;
pub mod upgrade;
pub mod util;
pub mod chaos;
pub mod cleaner;
pub mod cons;
pub mod crash;
pub mod dbm;
pub mod disk;
pub mod model;
pub mod scale;
pub mod srv;
pub mod stores;
pub mod hist;
pub mod wide;
pub mod wire;
