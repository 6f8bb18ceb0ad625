PROP='C30'
FILE='tower/src/load_shed/future.rs'
EDITS=[(FILE,"use futures_core::ready;\n","use futures_util::TryFutureExt;\n"),
(FILE,"                Poll::Ready(ready!(fut.poll(cx)).map_err(Into::into))","                std::pin::pin!(fut.map_err(Into::into)).poll(cx)")]
NEEDS="a build of the crate with only the feature load-shed"
BREAKS="the feature load-shed no longer builds alone"
DEMO='''#!/bin/bash
# run with cwd = the repository: the feature load-shed on its own must build
R=$PWD; W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
tower = { path = "$R/tower", default-features = false, features = ["load-shed"] }
[workspace]
T
echo 'pub fn shed<S>(s: S) -> tower::load_shed::LoadShed<S> { tower::load_shed::LoadShed::new(s) }' > "$W/src/lib.rs"
cd "$W" || exit 9
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 280 cargo check --offline -q 2>"$W/err"; rc=$?
[ $rc -ne 0 ] && grep -A3 '^error' "$W/err" | head -20
exit $rc
'''
