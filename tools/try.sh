#!/bin/bash
# try.sh PATCH CHECK...: run checks against a scratch copy of /repo with PATCH applied
p=$(realpath $1); shift
d=$(mktemp -d /tmp/tryrepo.XXXXXX)
trap 'rm -rf "$d"' EXIT
git -C /repo archive HEAD | tar -x -C "$d"
(cd "$d" && git init -q && git apply "$p") || exit 3
export VERIF_REPO="$d" VERIF_EVIDENCE="$d/evidence"
for c in "$@"; do python3 /verif/bin/check.py $c > /tmp/try-$c.log 2>&1; echo "$c rc=$? $(grep -c ^VIOLATION /tmp/try-$c.log) $(tail -1 /tmp/try-$c.log)"; done
