#!/bin/bash
# usage: check.sh ID        (tier from VERIF_TIER, seed from VERIF_SEED)
#        check.sh --build   builds both variants (setup)
#        check.sh --replay FILE
# exit 0 held / 1 violation / 2 no answer
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset VH_SERIAL_EXE
mkdir -p work
build() { # $1 = target subdir, rest = cargo args
  local d=$1; shift
  ( cd harness && CARGO_TARGET_DIR=/verif/target/$d cargo build --offline --locked "$@" ) > work/build.$d.log 2>&1 || {
    echo "build of the harness ($d) failed:"; tail -30 work/build.$d.log; return 1; }
}
# properties whose code has a serial and a parallel implementation
BOTH=" $(cat both.txt 2>/dev/null | tr '\n' ' ') "
case "$1" in
  --build) build par --features par && build ser; exit $? ;;
  --replay) build par --features par || exit 2
     if grep -q '"variant": "serial"' "$2"; then build ser || exit 2; export VH_SERIAL_EXE=/verif/target/ser/debug/vh; fi
     exec /verif/target/par/debug/vh replay "$2" ;;
esac
build par --features par || exit 2
if [[ "$BOTH" == *" $1 "* ]]; then
  build ser || exit 2
  export VH_SERIAL_EXE=/verif/target/ser/debug/vh
fi
exec /verif/target/par/debug/vh check "$1"
