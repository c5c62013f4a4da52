#!/bin/bash
# catch.sh ID [Cxx...]: does the check of the planted bug's property (or the named checks) catch it?
# Works on scratch copies of /repo and of this directory, removed afterwards.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
t=$(mktemp -d /tmp/catch.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"
mkdir "$t/v"; cp -a build-sim.sh check.sh sim tools known-findings.txt "$t/v/"
sed -i "s#/repo#$t/repo#g" "$t/v/build-sim.sh" "$t/v/sim/go.mod"
git -C "$t/repo" apply "${PATCH:-$PWD/seeded/$id/patch.diff}" || exit 2
for p in $props; do
  s=$SECONDS
  out=$("$t/v/check.sh" ${SURVEY:+survey} "$p" ${SURVEY:-quick} 2>"$t/err"); rc=$?
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 VIOLATION <<<"$out" | cut -c1-60)"
  [ $rc -gt 1 ] && tail -3 "$t/err"
  if [ -n "$SHOW" ]; then echo "$out" | head -${SHOW}; fi
done
