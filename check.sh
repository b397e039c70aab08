#!/bin/bash
# Decides one property against /repo's current tree: ./check.sh <ID>
# Builds the harness (and the crate in /repo with it), then runs the search.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
# Cargo decides by time stamps whether the crate has changed; never trust an old build of it.
rm -rf "$here"/harness/target/release/.fingerprint/traffic-sim-*
log="$(mktemp)"
if ! cargo build --release --offline --quiet --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "check.sh: the harness does not build" >&2
    exit 2
fi
rm -f "$log"
ulimit -v 20000000
export VERIF_OUT="${VERIF_OUT:-$here/evidence}"
export VERIF_KNOWN="$here/known-findings.txt"
export VERIF_FINDINGS="$here/findings"
export VERIF_REGRESS="${VERIF_REGRESS:-$here/regress}"
exec "$here/harness/target/release/harness" run "$1"
