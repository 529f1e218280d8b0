#!/bin/bash
# check.sh <property>: rebuilds the harness against /repo's working tree and decides one property.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: no verdict.
cd "$(dirname "$0")/mc" || exit 2
mkdir -p ../replays ../evidence
log=../replays/build-$1.log
# .cargo/config.toml there turns on the hooks in yamux; should they not fit the tree anymore, the
# scenarios that need them are left out
if ! cargo build --release --offline --quiet >"$log" 2>&1 &&
   ! RUSTFLAGS="--cfg yamux_no_hooks" cargo build --release --offline --quiet >"$log" 2>&1; then
  tail -40 "$log"
  echo "harness build failed"
  exit 2
fi
exec ./target/release/mc run "$1"
