#!/bin/bash
# usage: mut.sh PATCH|-R:COMMIT TIER ID...   try checks on a scratch copy of /repo with a
# patch applied (or one commit reverted).  Prints one line per check.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
p=$1 tier=$2; shift 2
w=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo" && cd "$w/repo" || exit 2
case $p in
-R:*) git revert --no-commit "${p#-R:}" >/dev/null 2>&1 || { echo "$p: revert conflicts"; exit 2; } ;;
-) ;;
*) git apply "$p" || { echo "$p: does not apply"; exit 2; } ;;
esac
mkdir "$w/v" && cp -a "$here/mon" "$here/shim" "$here/check.sh" "$here/known-findings.txt" "$w/v/" 2>/dev/null
sed -i "s#/repo\b#$w/repo#g" "$w/v/check.sh" "$w/v/mon/go.mod"
grep -ln '"/repo' "$w"/v/mon/*.go | xargs -r sed -i "s#\"/repo\b#\"$w/repo#g"
for id in "$@"; do
	s=$(date +%s)
	bash "$w/v/check.sh" "$id" "$tier" >"$w/log.$id" 2>&1; rc=$?
	v=$(grep -c "^VIOLATION property=$id" "$w/log.$id")
	echo "$id rc=$rc viol=$v $(($(date +%s)-s))s $(grep -m1 -A2 '^case' "$w/log.$id" | tr '\n' ' ' | cut -c1-260)"
	[ $rc -gt 1 ] && head -5 "$w/log.$id"
done
exit 0
