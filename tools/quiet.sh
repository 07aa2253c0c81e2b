#!/bin/bash
# quiet.sh DIFF LOG [ID...]: run the quick checks with a behaviour-preserving DIFF applied to /repo;
# prints the checks that were not quiet
d=$(realpath "$1"); log=$2; shift 2
cd "$(dirname "$0")/.." || exit 9
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
git -C /repo apply "$d" || exit 8
trap 'git -C /repo checkout -- .' EXIT
: > "$log"
for c in ${@:-$(seq -f 'C%02g' 1 32)}; do
  out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh "$c" quick 2>&1); rc=$?
  echo "$c rc $rc | $(grep -v KNOWN <<<"$out" | tail -2 | head -1 | cut -c1-300)" >> "$log"
done
grep -v "rc 0" "$log"
