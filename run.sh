#!/bin/bash
# run.sh ID | run.sh show ID [component] | run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" REPO=${REPO:-/repo}
. ./env.sh
mkdir -p "$VERIF_ROOT/build"
w=$(mktemp -d "$VERIF_ROOT/build/run.XXXXXX") || exit 2
trap 'rm -rf "$w"' EXIT
cmd=check
case "$1" in show|replay|check) cmd=$1; shift;; esac
e1() { # circuit code against a symbolic frontend.API
 (cd e1 && $GO run ./hookgen "$REPO/poseidon" "$w/ov" && $GO build -overlay "$w/ov/overlay.json" -o "$w/e1" .) || exit 3
 "$w/e1" "$@"
}
e2() { # plain Go code, symbolically executed from go/ssa
 (cd e2 && GOSUMDB=off $GO2 build -o "$w/e2" .) || exit 3
 REPO_GO=$GO "$w/e2" "$@"
}
case "$cmd:$1" in
 show:*) e1 show "$@";;
 replay:*.e2violation*) e2 replay "$@";;
 replay:*) e1 replay "$@";;
 check:C05|check:C19|check:C20|check:C21|check:C23|check:C24) e2 check "$@";;
 *) e1 check "$@";;
esac
