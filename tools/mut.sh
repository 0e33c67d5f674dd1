#!/bin/bash
# mut.sh FILE PERL-EXPR SPEC...: engine verdicts with one edit applied to /repo (restored afterwards)
f=/repo/$1; e=$2; shift 2
cp $f /tmp/mut.orig; perl -0pi -e "$e" $f; if cmp -s $f /tmp/mut.orig; then echo "no change"; exit 1; fi
(cd /repo && git diff | grep '^[+-]' | grep -v '^+++\|^---')
rm -rf /verif/.cache/mirt/debug/.fingerprint/{bdk_sp,dleq,indexer,bdk_sp_oracles,roots}-*
bash /verif/dump.sh /tmp/mut.json psbt_sp_spend >/tmp/mut.log 2>&1 || tail -20 /tmp/mut.log
cp /tmp/mut.orig $f
DUMP=/tmp/mut.json /verif/engine/run.sh "$@" | grep -v "^    {"
