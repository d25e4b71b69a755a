#!/bin/bash
# Decides one property: builds the harness against /repo's working tree and
# searches generated inputs for a violation.
#   run.sh C07                      (VERIF_SEED, VERIF_TIER from the environment)
#   run.sh C07 --replay FILE        (re-executes one shrunk failing case)
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" RUSTUP_TOOLCHAIN=stable
mkdir -p "$here/target"
log="$(mktemp "$here/target/build.XXXXXX")"
build() { (cd "$here/harness" && cargo build --release --offline "$@") >"$log" 2>&1; }
# only C01 links against a library interface of the repository; should that interface have
# changed, every other check still builds
if ! build --locked && ! build --locked --no-default-features && ! build; then
    grep -E '^error' -A8 "$log" | head -60 >&2
    echo "the harness does not build against this tree" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
exec "$here/target/release/lending-pbt" --property "$id" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" "$@"
