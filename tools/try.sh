#!/bin/bash
# try.sh <patch|-> <check ids...>: run checks against a scratch copy of /repo with the patch applied
P=$1; shift
D=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo $D/repo
if [ "$P" != - ]; then git -C $D/repo apply "$(realpath "$P")" || { echo APPLY-FAILED; rm -rf $D; exit 3; }; fi
[ -n "$SED" ] && (cd $D/repo && bash -c "$SED" && git diff --stat | tail -1)
cd /verif
for c in "$@"; do VERIF_REPO=$D/repo python3 checks/$c.py > $D/out 2>&1; echo "$c rc=$?"; grep -v "^$c:" $D/out | cut -c1-${W:-230} | head -${N:-4}; done
rm -rf $D
