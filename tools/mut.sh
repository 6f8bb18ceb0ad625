#!/bin/bash
# tools/mut.sh PATCH[,-R] ID... : run checks against a scratch copy of /repo with PATCH applied
# (PATCH "-" = none, "rev:COMMIT" = with that commit reverted); env SLOT selects the scratch slot
P=$1; shift
S=${SLOT:-0}; W=/tmp/mutw$S
mkdir -p $W
if [ ! -d $W/repo ]; then git -C /repo worktree prune; cp -a /repo $W/repo; rm -rf $W/repo/target; fi
git -C $W/repo checkout -q -f -- . ; git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
case "$P" in
 -) ;;
 rev:*) git -C /repo diff ${P#rev:} ${P#rev:}~1 | git -C $W/repo apply -3 - || exit 9;;
 *) git -C $W/repo apply "$P" || exit 9;;
esac
export VERIF_REPO=$W/repo VERIF_BUILD=$W/build VERIF_EVIDENCE=$W/evidence
mkdir -p $W/build; [ -d $W/build/driver ] || cp -a /verif/.build/driver $W/build/driver 2>/dev/null
cd /verif
for id in "$@"; do timeout 900 python3 check.py $id ${TIER:-quick} >$W/out.$id 2>&1; rc=$?; echo "$P $id rc=$rc $(grep -c '^  ' $W/out.$id) $(grep '^  ' $W/out.$id | head -${NL:-1} | cut -c1-230)"; grep '^note' $W/out.$id | head -3 | cut -c1-200; [ $rc -gt 1 ] && tail -2 $W/out.$id | cut -c1-300; done
true
