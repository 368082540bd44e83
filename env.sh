export RUSTUP_TOOLCHAIN=1.97.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
# Where /repo's own build already puts its (git-ignored) output: dependencies are reused from there.
export CARGO_TARGET_DIR="${VERIF_TARGET_DIR:-/repo/target}"
export DATABASE_URL=sqlite:///repo/opsqueue/opsqueue_example_database_schema.db
export PYO3_PYTHON=/usr/bin/python3.12
