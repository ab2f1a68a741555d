#!/bin/bash
# miri.sh ARGS...: runs the check in the interpreter.
cd "$(dirname "$0")" || exit 2
target="${MIRI_TARGET:-$PWD/../target/miri}"
mkdir -p "$target" "$target-cache"
# The released solver: the one that the pinned nightly has by default does not accept the crate.
export RUSTFLAGS="-Znext-solver=coherence -Awarnings"
export MIRIFLAGS="-Znext-solver=coherence -Awarnings -Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
export XDG_CACHE_HOME="$target-cache" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
exec cargo +nightly miri run --offline --quiet --bin c23 --target-dir "$target" -- "$@"
