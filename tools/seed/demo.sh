#!/bin/bash
# run with cwd = the repository: builds main.rs against its crates in a scratch
# directory and runs it; exit status 0 = the property holds
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$D/support.rs" "$W/src/"; cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tower = { path = "$R/tower", features = ["full"] }
tower-service = { path = "$R/tower-service" }
tower-layer = { path = "$R/tower-layer" }
tower-test = { path = "$R/tower-test" }
tokio = { version = "1", features = ["macros", "sync", "test-util", "rt", "rt-multi-thread", "time"] }
tokio-test = "0.4"
tokio-stream = "0.1"
futures = "0.3"
[workspace]
T
cd "$W" || exit 9
export RUST_BACKTRACE=0 CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 280 cargo run --offline -q 2>"$W/err"; rc=$?
[ $rc -ne 0 ] && tail -n 25 "$W/err"
exit $rc
