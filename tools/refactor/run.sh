#!/bin/bash
# run.sh SLOT NAME[,NAME...] [component/rule substrings]: apply refactorings to a scratch tree and run everything on it
S=$1; N=$2; shift 2
W=/tmp/refw$S; mkdir -p $W
[ -d $W/repo ] || { cp -a /repo $W/repo; rm -rf $W/repo/target; }
git -C $W/repo checkout -q -f -- . ; git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
python3 /verif/tools/refactor/apply.py $W/repo ${N//,/ } || exit 9
export VERIF_REPO=$W/repo VERIF_BUILD=$W/build
mkdir -p $W/build; [ -d $W/build/driver ] || cp -a /verif/.build/driver $W/build/driver
python3 /verif/tools/refactor/all.py "$@"
