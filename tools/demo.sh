#!/bin/bash
# builds the program beside this script against the repository and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=${DEMO_REPO:-/repo}
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/files"
cp "$here/demo.rs" "$d/src/main.rs" && cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "kicad-conformance"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kicad_parse_gen = { path = "$repo" }
T
export HOME=/root CARGO_HOME=/root/.cargo PATH=/usr/local/bin:/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
cd "$d/files" || exit 3
CARGO_TARGET_DIR="$d/target" cargo run -q --offline --manifest-path "$d/Cargo.toml"
