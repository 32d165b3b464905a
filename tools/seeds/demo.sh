#!/bin/bash
# Runs demo.rs as a test inside a scratch copy of the repository (cwd).
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR
mkdir "$scratch/repo" "$scratch/files"
cp -a ./. "$scratch/repo/" 2>/dev/null || exit 99
cp "$here/demo.rs" "$scratch/repo/src/zz_demo.rs"
cp "$here/support.rs" "$scratch/repo/src/zz_support.rs"
printf '\n#[cfg(test)]\nmod zz_demo;\n#[cfg(test)]\nmod zz_support;\n' >> "$scratch/repo/src/main.rs"
cd "$scratch/repo" || exit 99
export DEMO_SCRATCH="$scratch/files" CARGO_TARGET_DIR="$scratch/repo/target"
cargo build --offline --tests >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log"; exit 98; }
timeout -k 5 120 cargo test --offline zz_demo -- --test-threads 1 2>&1 | tail -40
status=${PIPESTATUS[0]}
exit "$status"
