#!/bin/bash
# Decides one property: run.sh C07 [quick|thorough]
# Exit 0: held on everything explored. 1: violated, with a VIOLATION line. Else: no answer.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $SEED in ''|*[!0-9]*) SEED=$(printf '%s' "$SEED" | cksum | cut -d' ' -f1);; esac
mkdir -p "$ROOT/evidence"

# Number of simulated runs per tier, sized by the measured rate of each property.
read -r QUICK THOROUGH PRE < <(awk -v p="$P" '$1 == p {print $2, $3, $4}' "$ROOT/budget.txt")
[ -n "${QUICK:-}" ] || { echo "run.sh: unknown property $P" >&2; exit 2; }
if [ "$TIER" = thorough ]; then N=$THOROUGH; SECS=3000; K=$((THOROUGH / QUICK)); else N=$QUICK; SECS=200; K=1; fi

code=0
note() { case $1 in 1) code=1;; 0) ;; *) [ $code = 1 ] || code=2;; esac; }

inc=()
if [ "${PRE:-0}" != 0 ]; then
  if B=$("$ROOT/build.sh" pre-rfc8301); then
    E=$ROOT/.build/$P-pre.json
    "$B" run --prop "$P" --seed "$SEED" --tier "$TIER" --runs $((PRE * K)) --secs "$SECS" --root "$ROOT" --evidence "$E"
    note $?
    inc=(--include "$E")
  else
    note 2
  fi
fi
if B=$("$ROOT/build.sh" default); then
  "$B" run --prop "$P" --seed "$SEED" --tier "$TIER" --runs "$N" --secs "$SECS" --root "$ROOT" --evidence "$ROOT/evidence/$P.json" "${inc[@]}"
  note $?
else
  note 2
fi
exit $code
