#!/bin/bash
# trybugs.sh LANE [ID[:PROPERTY]..]: runs the check of each planted bug's property (or PROPERTY) against it, in a mount
# namespace of its own in which /repo and /verif are copies (so that work can go on in the real ones).
# none:PROPERTY is the unchanged tree, or with PATCH=file that change (a refactoring, of which the check must say nothing).
lane=/tmp/try$1; shift
[ -n "$LANED" ] || exec env LANED=1 unshare -m bash "$0" "${lane#/tmp/try}" "$@"
rm -rf "$lane/verif"; mkdir -p "$lane/repo" "$lane/verif"
if [ ! -d "$lane/repo/.git" ]; then cp -a /repo/. "$lane/repo"; fi
cp -a "${SRC:-/verif}/." "$lane/verif"
git -C "$lane/repo" checkout -q -- . ; git -C "$lane/repo" fetch -q /repo HEAD; git -C "$lane/repo" reset -q --hard "$(git -C /repo rev-parse HEAD)"
mount --bind "$lane/repo" /repo; mount --bind "$lane/verif" /verif
cd /verif
for x in "$@"; do
  id=${x%%:*}; p=${x#*:}
  [ "$p" = "$x" ] && p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if [ "$id" != none ]; then git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }; fi
  if [ "$id" = none ] && [ -n "$PATCH" ]; then git -C /repo apply "$PATCH" || { echo "$PATCH does not apply"; continue; }; fi
  s=$SECONDS
  timeout 900 python3 check.py "$p" > "/tmp/try-$id-$p.log" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -c ^VIOLATION "/tmp/try-$id-$p.log") $(grep '^VIOLATION' "/tmp/try-$id-$p.log" | head -2 | cut -c1-160 | tr '\n' ' ')"
done
