#!/bin/bash
# Copies the crate in the current directory to a scratch folder, adds demo.rs as a test module and runs it.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD; [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; cd "$r"
w=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -r Cargo.toml Cargo.lock src "$w/"
cp "$d/demo.rs" "$w/src/vp_demo.rs"
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> "$w/src/lib.rs"
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" timeout 250 cargo test --offline --locked --lib vp_demo > "$w/log" 2>&1
rc=$?
grep -q "test result: ok. [1-9]" "$w/log" || { tail -40 "$w/log"; exit 1; }
exit $rc
