#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's working tree and searches.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >/tmp/.ronda-sim-build.$$ 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  cat /tmp/.ronda-sim-build.$$; rm -f /tmp/.ronda-sim-build.$$
  echo "the simulator could not be built from /repo's working tree"
  exit 3
fi
rm -f /tmp/.ronda-sim-build.$$
export SIM_ROOT="$here"
exec "$here/sim/target/debug/sim" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
