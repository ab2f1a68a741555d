#!/bin/bash
# Builds everything once, so that later runs are incremental.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
mkdir -p target work evidence
for crate in mc mq ma mlim mcsched mmiri; do
  [ -f "$crate/Cargo.toml" ] || continue
  (cd "$crate" && cargo build --release --offline --quiet --target-dir "$PWD/../target") >work/setup-$crate.log 2>&1 || {
    tail -40 work/setup-$crate.log >&2
    exit 1
  }
done
mmiri/miri.sh warm >work/setup-miri.log 2>&1 || { tail -40 work/setup-miri.log >&2; exit 1; }
