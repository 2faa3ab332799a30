#!/bin/bash
# usage: tools/try.sh PATCH PID...   run checks against a scratch copy of /repo with PATCH applied (-R REV reverts a commit)
set -u
S=$(mktemp -d /tmp/scratch.XXXXXX)
trap 'rm -rf "$S"' EXIT
git -C /repo archive HEAD | tar -x -C "$S"
P=$1; shift
if [ "$P" = -R ]; then git -C /repo show "$1" | (cd "$S" && patch -R -p1 -s) || exit 3; shift; else (cd "$S" && patch -p1 -s < "$P") || exit 3; fi
for id in "$@"; do VERIF_REPO=$S VERIF_EVID=/dev/null /verif/run $id; echo "rc=$?"; done
