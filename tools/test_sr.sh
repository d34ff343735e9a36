#!/bin/bash
# bash /opt/vp/test.sh OUT.json: runs the tests of /tmp/sr as it stands, offline.
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
# insta must not write .snap.new files into the repository.
export INSTA_UPDATE=no NO_COLOR=1
OUT=$(realpath -m "$1")
LOG=/tmp/sr/target/vp-test.log
cd /tmp/sr || exit 1
mkdir -p target
rm -f "$OUT" "$LOG"
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > "$LOG" 2>&1
tail -n 40 "$LOG"
python3 /opt/vp/results.py "$OUT" "cargo:$LOG"
