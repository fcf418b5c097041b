#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/data"
cp "$here/main.rs" "$d/src/main.rs" || exit 3
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hnsw_rs = { path = "$repo" }
rand = "0.8"
log = "0.4"
serde = { version = "1.0", features = ["derive"] }
[profile.dev]
opt-level = 1
debug = false
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 3
cargo build --offline -q > build.log 2>&1 || { tail -20 build.log; exit 3; }
cd "$d/data" || exit 3
timeout -k 5 200 "$d/target/debug/demo"
rc=$?
[ $rc = 0 ] && echo "demo: holds" || echo "demo: BROKEN ($rc)"
exit $rc
