#!/bin/bash
# usage: mut.sh PATCH PROP... : apply a patch to /repo, run checks, undo
p=$1; shift
git -C /repo apply "$p" || exit 9
for c in "$@"; do (cd /verif && timeout 900 python3 check.py $c --seconds ${SECS:-20}; echo "exit $?"); done
git -C /repo checkout -- .
