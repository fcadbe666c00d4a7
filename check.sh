#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working tree and searches.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
./build.sh > build.log 2>&1 || { cat build.log; echo "check: build failed"; exit 2; }
read -r _ q t <<< "$(grep "^$prop " budgets.txt)"
[ -n "$q" ] || { echo "check: no budget for $prop"; exit 2; }
mkdir -p evidence replays
if [ "$tier" = thorough ]; then runs=$t; cap=780; else runs=$q; cap=100; fi
exec build/simrun check "$prop" --tier "$tier" --runs "$runs" --cap "$cap" --workers 8 \
  --evidence "evidence/$prop.json" --replays replays
