"""Shared text for the demonstrations of planted bugs."""
DEMO_RS = r'''#!/bin/bash
# Builds a scratch program from the modules of the repository in the working directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$t/target"
mkdir -p "$t/src" "$t/work"
sed "s#@SRC@#$repo/src#" "$here/prelude.rs" > "$t/src/main.rs"
cat "$here/demo.rs" >> "$t/src/main.rs"
cat > "$t/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
clap = { version = "4.5.4", features = ["derive"] }
glob = "0.3"
log = "0.4"
num_cpus = "1.0"
regex = "1.10"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
tempfile = "3.0"
toml = "0.8"
walkdir = "2.5"
[workspace]
T
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cargo build --offline --manifest-path "$t/Cargo.toml" > "$t/log" 2>&1 || { tail -30 "$t/log"; echo "demo does not build"; exit 3; }
cd "$t/work" || exit 2
export TMPDIR="$t/work" RTEST_REPO="$repo"
timeout 200 "$t/target/debug/demo"
rc=$?
echo "demo exit $rc"
exit $rc
'''
PRELUDE = r'''#![allow(dead_code, unused_imports)]
#[path = "@SRC@/cli.rs"]
mod cli;
mod collection {
    #[path = "@SRC@/collection/config.rs"]
    pub mod config;
    #[path = "@SRC@/collection/error.rs"]
    pub mod error;
    #[path = "@SRC@/collection/types.rs"]
    pub mod types;
    #[path = "@SRC@/collection/utils.rs"]
    mod utils;
    pub use utils::glob_match;
}
#[path = "@SRC@/config.rs"]
mod config;
#[path = "@SRC@/native_runner.rs"]
mod native_runner;
#[path = "@SRC@/pytest_executor.rs"]
mod pytest_executor;
#[path = "@SRC@/runner.rs"]
mod runner;
#[path = "@SRC@/scheduler.rs"]
mod scheduler;
#[path = "@SRC@/subproject.rs"]
mod subproject;
#[path = "@SRC@/utils.rs"]
mod utils;
#[path = "@SRC@/worker.rs"]
mod worker;
pub use collection::error::{CollectionError, CollectionResult};
pub use native_runner::*;
pub use pytest_executor::execute_tests;
pub use runner::{execute_tests_parallel, ParallelExecutionConfig, PytestRunner};
pub use scheduler::{create_scheduler, DistributionMode};
pub use utils::determine_worker_count;
pub use worker::{WorkerPool, WorkerTask};
use std::path::{Path, PathBuf};

/// An executable shell script in the (scratch) working directory.
fn script(name: &str, body: &str) -> String {
    use std::os::unix::fs::PermissionsExt;
    let p = std::env::current_dir().unwrap().join(name);
    std::fs::write(&p, format!("#!/bin/sh\n{body}\n")).unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    p.to_str().unwrap().to_string()
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
'''
DEMO_PY = r'''#!/bin/bash
# Runs demo.py against the Python package of the repository in the working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
py=/opt/vp/venv/bin/python
[ -x "$py" ] || py=python3
cp "$here/demo.py" "$t/demo.py"
mkdir "$t/work"
cd "$t/work" || exit 2
PYTHONPATH="$repo/python" PYTHONDONTWRITEBYTECODE=1 TMPDIR="$t/work" timeout 200 "$py" "$t/demo.py"
rc=$?
echo "demo exit $rc"
exit $rc
'''
