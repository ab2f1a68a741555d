#!/bin/bash
# run.sh ID [--thorough | --replay FILE]: builds the check of one property from /repo's current
# working tree and runs it. Exit 0: held. Exit 1 with a VIOLATION line: broken. Other: error.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
id="$1"; shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
case "$id" in
  C03|C11|C12|C24) crate=mcsched ;;
  C04|C05|C06|C10|C14) crate=mq; deps="mc qtable" ;;
  C18) crate=ma; deps=mc ;;
  C13) crate=mlim ;;
  C23) crate=mmiri; deps="mc mcsched/rayon-core mcsched/sched" ;;
  *) crate=mc ;;
esac
dirs="engine ${deps:-} $crate"
target="$PWD/target"
mkdir -p "$target" work evidence
# Cargo looks at modification times, which copies of the tree do not keep: look at the content.
sum="$(cat $(find /repo/src /repo/Cargo.toml $dirs -type f -not -path '*/target/*' | LC_ALL=C sort) | sha256sum)"
if [ "$(cat "$target/$crate.sum" 2>/dev/null)" != "$sum" ]; then
  rm -f "$target/$crate.sum"
  (cd "$crate" && cargo clean --release --offline --target-dir "$target" -p sparsey $(for d in $dirs; do echo "-p ${d##*/}"; done) >/dev/null 2>&1)
  [ $crate = mmiri ] && cargo clean --manifest-path mmiri/Cargo.toml --target-dir "$target/miri" >/dev/null 2>&1
  find $dirs -name '*.rs' -not -path '*/target/*' -exec touch {} +
fi
if ! (cd "$crate" && cargo build --release --offline --quiet --bin "$bin" --target-dir "$target") >work/build-$bin.log 2>&1; then
  tail -40 work/build-$bin.log >&2
  echo "[$id] error: the check does not build" >&2
  exit 3
fi
echo "$sum" >"$target/$crate.sum"
exec "$target/release/$bin" "$@"
