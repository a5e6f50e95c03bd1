#!/bin/bash
# builds and runs demo.rs against the crates in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh 2>/dev/null
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
deps=$(head -1 "$here/demo.rs" | sed -n 's#^// deps: ##p')
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
  for d in $deps; do
    case "$d" in
      simple) printf 'simple = { path = "%s" }\n' "$repo" ;;
      *=*) printf '%s = "%s"\n' "${d%%=*}" "${d#*=}" ;;
      *) printf '%s = { path = "%s/%s" }\n' "$d" "$repo" "$d" ;;
    esac
  done
} > "$w/Cargo.toml"
cd "$w" || exit 3
export CARGO_TARGET_DIR=$w/target
cargo build --offline -q || exit 3
timeout 120 "$w/target/debug/demo"
