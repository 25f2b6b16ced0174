#!/bin/bash
# rs.sh BIN scen... : run scenarios of /repo (or VERIF_REPO=dir with VERIF_BUILD=dir); shows what was violated.
# Environment: TIER, BUDGET, BOUND.  Replay: $(path) --replay /tmp/v_SCEN.txt
cd "$(dirname "$0")/.."; bin=$1; shift
B=$(python3 vbuild.py | awk -v b=$bin '$1==b{print $2}'); [ -z "$B" ] && { python3 vbuild.py | tail -20; exit 2; }
L="$@"; [ -z "$L" ] && L=$($B --list | awk '{print $1}')
for s in $L; do $B --scen $s --tier ${TIER:-quick} --budget ${BUDGET:-60} ${BOUND:+--bound $BOUND} --vfile /tmp/v_$s.txt -v > /tmp/o.$$ 2>&1; grep VIOLAT /tmp/o.$$|sort | uniq -c|head -3; grep -i machine /tmp/o.$$|head -3; tail -1 /tmp/o.$$; done; rm -f /tmp/o.$$
