#!/bin/bash
# Records the Verus signature of every extracted function on the unchanged tree (units/*.sigs), so that a function
# that can no longer be extracted is still known, by contract, to its callers.
cd "$(dirname "$0")/.."
for u in ${@:-units/*.vrs}; do
  b=${u%.vrs}
  grep -q '^//@fn' $u || continue
  .cache/vx/debug/vx gen --unit $u --repo /repo --out .cache/sig.rs --map .cache/sig.json --write-sigs $b.sigs || exit 1
done
