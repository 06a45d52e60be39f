#!/bin/bash
# sens.sh IDS PATCH|-COMMIT...: run checks against a copy of /repo with a
# patch applied or a commit reverted. Development aid, not a check.
ids=$1; shift
for p in "$@"; do
  [ "${p:0:1}" = - ] || p=$(realpath "$p")
  d=$(mktemp -d /tmp/sens.XXXX)
  cp -a /repo "$d/repo"
  (cd "$d/repo" && if [ "${p:0:1}" = - ]; then for c in ${p:1}; do :; done; IFS=, ; for c in ${p:1}; do git revert --no-commit "$c" || exit 1; done >/dev/null 2>&1; else git apply "$p"; fi) \
    || { echo "$p does not apply"; rm -rf "$d"; continue; }
  for id in ${ids//,/ }; do
    r=$(DSIM_REPO=$d/repo DSIM_NOEVIDENCE=1 timeout 900 python3 /verif/run.py check "$id" 2>&1 | grep -E "VIOLATION|fails|Error" | head -3)
    echo "== $p $id: ${r:-quiet}"
  done
  rm -rf "$d"
done
