#!/bin/bash
# run.sh farming|amm DEMO.rs, in a checkout of the repository: builds the
# program and the demonstration in a scratch directory and runs it.
set -e
kit=$(cd "$(dirname "$0")" && pwd); prog=$1; demo=$(realpath "$2"); repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR=$d/target CARGO_INCREMENTAL=0
mkdir -p "$d/$prog" "$d/src"
cp -r "$kit/decimal" "$d/decimal"
cp -r "$repo/programs/$prog/src" "$d/$prog/src"
version=$(sed -n 's/^version = "\(.*\)"/\1/p' "$repo/programs/$prog/Cargo.toml" | head -1)
cat > "$d/$prog/Cargo.toml" <<E
[package]
name = "$prog"
version = "$version"
edition = "2021"
[features]
no-entrypoint = []
no-idl = []
no-log-ix-name = []
cpi = ["no-entrypoint"]
default = []
dev = []
[dependencies]
anchor-lang = "0.24.2"
anchor-spl = "0.24.2"
decimal = { path = "../decimal" }
E
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
$prog = { path = "$prog", features = ["no-entrypoint"] }
anchor-lang = "0.24.2"
anchor-spl = "0.24.2"
[profile.dev]
debug = 0
opt-level = 0
[workspace]
E
cp "$kit/Cargo.lock" "$d/Cargo.lock"
cp "$kit/world.rs" "$d/src/world.rs"
cp "$kit/$prog.rs" "$d/src/util.rs"
cp "$demo" "$d/src/demo.rs"
cat > "$d/src/main.rs" <<E
#![allow(dead_code, unused_imports, unused_must_use, unused_mut, unused_variables)]
mod world;
mod util;
mod demo;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(demo::demo).unwrap().join().unwrap_or_else(|_| std::process::exit(1));
    println!("as it should be");
}
E
cd "$d"
cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
