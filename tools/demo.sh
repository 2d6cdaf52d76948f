#!/bin/bash
# Runs demo.rs as a unit test of a scratch copy of the crate in the working directory,
# as a child of the module named in its first line ("// in: src/…"), src/lib.rs if none.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a . "$d/r" || exit 2
cd "$d/r" || exit 2
export CARGO_TARGET_DIR="$d/r/target"
[ -e Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
rm -rf "$d/r/target/debug/.fingerprint/"qesa-*
f=$(sed -n '1s,^// in: ,,p' "$here/demo.rs"); f=${f:-src/lib.rs}
cp "$here/demo.rs" "$(dirname "$f")/seeded_demo.rs"
printf '\n#[cfg(test)]\n#[path = "seeded_demo.rs"]\nmod seeded_demo;\n' >> "$f"
timeout 280 cargo test --offline --lib seeded_demo -- --test-threads 1
