#!/bin/bash
# trybugs.sh [-j N] BUG...: runs the check of each planted bug's property on a copy of /repo with the bug applied
# (both trees mounted privately, so neither the real /repo nor the evidence is touched). Prints "bug check rc seconds".
n=1; [ "$1" = -j ] && { n=$2; shift 2; }
one() {
  b=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $w/repo; mkdir $w/verif
  (cd /verif && git ls-files -z | grep -zv '^seeded/' | xargs -0 cp --parents -t $w/verif)
  git -C $w/repo apply /verif/seeded/$b/patch.diff || { echo "$b $p unapplied 0"; return; }
  s=$(date +%s)
  unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && timeout 900 ./run.sh $p" > /tmp/bug.$b.log 2>&1; rc=$?
  [ $rc = 1 ] && ! grep -q "^VIOLATION property=$p " /tmp/bug.$b.log && rc=noline
  echo "$b $p $rc $(( $(date +%s) - s ))"
  rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P $n -I{} bash -c 'one {}'
