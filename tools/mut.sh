#!/bin/bash
# mut.sh PATCH CHECK...: runs checks (quick) on a scratch copy of /repo's sources with PATCH applied ("-R:hash" reverts a commit)
P=$1; shift
D=$(mktemp -d /tmp/mut_XXXXXX)
git -C /repo archive HEAD | tar x -C $D
cd $D; git init -q . ; 
if [[ $P == -R:* ]]; then git -C /repo show ${P#-R:} | git apply -R || echo PATCHFAIL; elif [ -n "$P" ] && [ "$P" != none ]; then git apply "$P" || echo PATCHFAIL; fi
cd /verif
for c in $*; do REPO_DIR=$D MC_CACHE=$D/_mc timeout 900 python3 run.py $c --quick 2>&1 | cut -c1-300 | tail -${TAILN:-3}; done
rm -rf "$D"
