#!/bin/bash
# trybug.sh ID... : for each seeded change, in a private mount of a copy of /repo: builds, runs the stable tests, runs
# the demonstration with and without the change, and the check of its property. Results in /verif/out/bugs/.
V=$(cd "$(dirname "$0")/.." && pwd); C=/tmp/bugrepo; O=$V/out/bugs; mkdir -p $O
[ -d $C ] || cp -a /repo $C
git -C $C fetch -q /repo HEAD && git -C $C checkout -q --force FETCH_HEAD && git -C $C clean -qfd
one() {
  id=$1; d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$NOCLEAN" ] || true; r="$id $prop"
  git -C $C checkout -q -- . 
  if [ -z "$NODEMO" ]; then (cd /repo; timeout 300 bash $d/demo.sh >$O/$id.demo0 2>&1); r="$r clean=$?"; fi
  git -C $C apply $d/patch.diff || { echo "$r PATCH-FAILS"; return; }
  if [ -z "$NODEMO" ]; then (cd /repo; timeout 300 bash $d/demo.sh >$O/$id.demo1 2>&1); r="$r bug=$?"; fi
  if [ -z "$NOTEST" ]; then bash $V/tools/repotest.sh >$O/$id.test 2>&1; r="$r tests=$?"; fi
  timeout 900 python3 $V/check.py $prop $ARGS >$O/$id.check 2>&1; c=$?
  r="$r check=$c $(grep -c "^VIOLATION property=$prop" $O/$id.check)v $(grep '^--- ' $O/$id.check | head -3 | tr '\n' ';')"
  git -C $C checkout -q -- .
  echo "$r" | tee -a $O/results.txt
}
if [ -z "$INNER" ]; then
  INNER=1 exec unshare -m bash -c "mount --bind $C /repo && exec bash $V/tools/trybug.sh $*"
fi
for i in "$@"; do one $i; done
