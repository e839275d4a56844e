#!/bin/bash
# Builds the demonstration against the library in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$here"/*.rs "$T/src/"
cp "$here/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "mc"
version = "0.1.0"
edition = "2021"
[dependencies]
libfranka-rs = { path = "$PWD" }
nalgebra = "0.23"
libc = "0.2"
[workspace]
X
(cd "$T" && cargo build --offline --locked --target-dir "$T/target") >"$T/log" 2>&1 || { cat "$T/log"; exit 2; }
cd "$T" && timeout 120 "$T/target/debug/mc"
