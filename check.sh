#!/bin/bash
# usage: check.sh <PROPERTY>               explore and report (tier from VERIF_TIER)
#        check.sh replay <PROPERTY> SCOPE FROM TO    replay one recorded case
#        check.sh build                    only build
# Builds the harness against /repo's current working tree, then runs it.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${MC_TARGET:-/verif/target}
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
ulimit -c 0
mkdir -p "$CARGO_TARGET_DIR" /verif/evidence
# build CRATE TARGET PATHS...: build a harness.  Freshness by content, not by time stamp: a
# changed tree is always rebuilt.
build() {
  local crate=$1 target=$2 hash log
  shift 2
  mkdir -p "$target"
  hash=$(cd /repo && find "$@" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$hash" != "$(cat "$target/.repo-hash" 2>/dev/null)" ]; then
    (cd /verif/$crate && for p in rtforth $crate; do
      CARGO_TARGET_DIR=$target cargo clean --release --offline -p $p >/dev/null 2>&1
    done)
  fi
  log=$target/build.log
  if ! (cd /verif/$crate && CARGO_TARGET_DIR=$target cargo build --release --offline >"$log" 2>&1); then
    grep -A12 '^error' "$log" | head -60
    echo "ERROR: the harness does not build against /repo"
    exit 2
  fi
  echo "$hash" > "$target/.repo-hash"
}
id=$1
[ "$1" = replay ] && id=$2
core=$CARGO_TARGET_DIR term=$CARGO_TARGET_DIR/term
case $id in
  build)
    build mc "$core" src core.fth Cargo.toml
    build mcterm "$term" src core.fth Cargo.toml rtf
    exit 0 ;;
  # the rtf application
  C28 | C29)
    build mcterm "$term" src core.fth Cargo.toml rtf
    exec "$term/release/mcterm" "$@" ;;
  *)
    build mc "$core" src core.fth Cargo.toml
    exec "$core/release/mc" "$@" ;;
esac
