#!/bin/bash
# Builds the engines once (warms the Go build cache); checks rebuild from /repo themselves.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
. ./env.sh
mkdir -p build
(cd e1 && $GO run ./hookgen /repo/poseidon ../build/ov && $GO build -overlay ../build/ov/overlay.json -o ../build/e1.setup .) || exit 1
(cd e2 && GOSUMDB=off $GO2 build -o ../build/e2.setup .) || exit 1
rm -rf "$VERIF_ROOT/build/e1.setup" "$VERIF_ROOT/build/e2.setup" "$VERIF_ROOT/build/ov"
command -v z3-new >/dev/null || { echo "z3-new missing"; exit 1; }
