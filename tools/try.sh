#!/bin/bash
# usage: tools/try.sh SLOT PATCH|- ...   development aid: analyse a scratch copy of /repo with each patch applied and print all reports
S=$1; shift
W=/tmp/try/$S
mkdir -p $W
if [ ! -d $W/repo ]; then git clone -q /repo $W/repo; fi
mkdir -p $W/verif/.build
cp -a /verif/sa /verif/build_facts.sh /verif/check.sh /verif/driver /verif/KNOWN_FINDINGS.txt $W/verif/ 
[ -d $W/verif/.build/target ] || cp -a /verif/.build/target /verif/.build/mirfacts $W/verif/.build/
git -C $W/repo fetch -q && git -C $W/repo reset -q --hard $(git -C /repo rev-parse HEAD)
for p in "$@"; do
  git -C $W/repo checkout -q -- . ; git -C $W/repo clean -fdq
  if [ "$p" != - ]; then git -C $W/repo apply "$p" || { echo "$p: DOES NOT APPLY"; continue; }; fi
  if ! ARTEFACTA_REPO=$W/repo $W/verif/build_facts.sh $W/facts > $W/log 2>&1; then echo "$p: DOES NOT BUILD"; tail -15 $W/log; continue; fi
  echo "== $p"
  python3 $W/verif/sa/report.py $W/facts 2>&1 | tail -${LINES_MAX:-12} | cut -c1-${COLS:-330}
done
git -C $W/repo checkout -q -- .
