#!/bin/bash
# explore.sh HARNESS PROP [mult] [seed] [extra]: keep going over failures, list failure keys with counts
cd /verif && python3 tools/build.py ${CFG:-rel} $1 >/tmp/explore.build 2>&1 || { grep -E 'error' /tmp/explore.build | head -8; exit 3; }
rm -rf /tmp/replays; PBT_KEEP_GOING=1 PBT_LABELS=1 build/${CFG:-rel}/$1 --prop $2 --mult ${3:-1} --seed ${4:-1} --wall 300 --shrink ${SHRINK:-0} --out /tmp/explore.json --replaydir /tmp/replays $5 $6 > /tmp/explore.out 2>&1
grep -E 'cases,' /tmp/explore.out; python3 tools/sumfail.py
