#!/bin/bash
# check.sh Cxx [quick|thorough]  decides one property against /repo's current working tree
# check.sh replay FILE           replays a recorded violation exactly
# check.sh run Cxx SEED INDEX    prints the trace of one simulated run
# check.sh survey Cxx [RUNS]     development aid: histogram of violation classes, no early stop
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
race=
case "$1 $2" in
"C25 "* | "survey C25" | "run C25") race=race ;;
replay*) grep -q '"race": true' "$2" && race=race ;;
esac
log=$(./build-sim.sh $race 2>&1) || { echo "check.sh: the simulator does not build against /repo:" >&2; echo "$log" | tail -40 >&2; exit 2; }
mkdir -p evidence replays
bin=$PWD/.build/run.$$
cp .build/sim "$bin" || exit 2
trap 'rm -f "$bin" "$bin.race" "$bin".log.*' EXIT
if [ -n "$race" ] && [ -e .build/simrace ]; then
  cp .build/simrace "$bin.race" && export VERIF_RACE_BIN=$bin.race VERIF_RACE_LOG=$bin.log
fi
case "$1" in
replay) "$bin" replay "$2" ;;
run) "$bin" run "$2" "${3:-1}" "${4:-0}" ;;
survey) VERIF_SURVEY=1 VERIF_RUNS=${3:-2000} "$bin" check "$2" ;;
C*) VERIF_TIER=${2:-${VERIF_TIER:-quick}} "$bin" check "$1" ;;
*) sed -n 2,6p "$0"; exit 2 ;;
esac
