#!/bin/bash
# check_seed.sh ID: applies /verif/seeded/ID/patch.diff in a scratch copy of /repo, and checks that it
# builds, passes the stable tests, and that its demonstration tells the two trees apart.
set -u
id="$1"; seed="/verif/seeded/$id"
work="/tmp/seedcheck.$$"; mkdir -p "$work"
cp -a /repo "$work/clean"; cp -a /repo "$work/bug"
cp -a "$seed" "$work/demo"; find "$work/demo" -name '*.diff' -delete
git -C "$work/bug" checkout -q -- . && git -C "$work/clean" checkout -q -- .
git -C "$work/bug" apply "$seed/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
t0=$(date +%s)
(cd "$work/bug" && cargo test --offline >"$work/test.log" 2>&1) || { echo "$id: TESTS FAIL"; tail -20 "$work/test.log"; rm -rf "/tmp/seedcheck.$$"; exit 1; }
(cd "$work/bug" && cargo build --offline --features parallel >"$work/build.log" 2>&1) || { echo "$id: PARALLEL BUILD FAILS"; tail "$work/build.log"; rm -rf "/tmp/seedcheck.$$"; exit 1; }
t1=$(date +%s)
(cd "$work/clean" && bash "$work/demo/demo.sh" >"$work/clean.log" 2>&1); c=$?
(cd "$work/bug" && bash "$work/demo/demo.sh" >"$work/bug.log" 2>&1); b=$?
t2=$(date +%s)
if [ $c = 0 ] && [ $b != 0 ]; then echo "$id: ok (tests $((t1-t0)) s, demos $((t2-t1)) s): $(tail -1 "$work/bug.log")"; r=0; else
  echo "$id: DEMO clean=$c bug=$b"; tail -5 "$work/clean.log" "$work/bug.log"; r=1; fi
rm -rf "/tmp/seedcheck.$$"
exit $r
