#!/bin/bash
# iso.sh DIFF ID...: runs checks on a copy of /repo with DIFF applied, mounted over /repo in a namespace of its own.
diff=$(readlink -f "$1"); shift
w=$(mktemp -d /tmp/iso.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
mkdir "$w/verif"
(cd /verif && git ls-files -z | grep -zv '^seeded/' | xargs -0 cp --parents -t "$w/verif")
[ -s "$diff" ] && { git -C "$w/repo" apply "$diff" || exit 3; }
for id in "$@"; do
 t=$SECONDS
 unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && timeout 900 ./run.sh $id" > "$w/log" 2>&1
 rc=$?
 echo "$(basename "$(dirname "$diff")")/$(basename "$diff") $id rc=$rc $((SECONDS-t))s $(grep -m1 VIOLATION "$w/log")"
 [ $rc = 0 ] && grep -E 'undecided' "$w/log" | cut -c1-220 | head -4
 cp "$w/log" "/tmp/iso.$(basename "$diff" .diff).$id.log"
done
