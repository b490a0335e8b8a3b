#!/bin/bash
# usage: check.sh Cxx [tier]   exit 0 held, 1 violated, anything else: the check itself failed
P=$1
T=${2:-${VERIF_TIER:-quick}}
S=${VERIF_SEED:-1}
cd /verif || exit 3
KIND=; BIN=.build/xpdfsim
case $P in
C07) KIND=race; BIN=.build/xpdfsim.race ;;
esac
if ! ./build.sh $KIND >.build.log 2>&1; then
  cat .build.log >&2
  echo "check.sh: building the simulator from /repo failed" >&2
  exit 3
fi
mkdir -p replays evidence
exec $BIN -prop $P -tier $T -seed $S
