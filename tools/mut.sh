#!/bin/bash
# mut.sh PATCH CHECK...   run checks against a scratch copy of /repo with PATCH applied
# (R:<commit> instead of a patch file reverts that commit)
set -e
p=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. $d/
case $p in
 R:*) git -C $d -c user.name=x -c user.email=x@x revert --no-edit -n ${p#R:} >/dev/null ;;
 *) git -C $d apply "$p" ;;
esac
for c in "$@"; do SIM_REPO_SRC=$d/src /opt/venv/bin/python check.py $c --no-evidence ${MUTARGS} 2>&1 | grep -v "^ *$" | tail -${TAIL:-4}; done
rm -rf "$d"
