#!/bin/sh
# Builds the checkers, and the code under test with them, from the committed files. Offline.
# setup.sh [symex|wktx]
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
rc=0
for d in ${1:-symex wktx}; do
    (cd "$d" && exec cargo build --release --offline --quiet) || [ "$d" = wktx -a -z "$1" ] || rc=2
done
exit $rc
