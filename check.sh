#!/bin/bash
# check.sh ID: rebuild the simulator from /repo's working tree, then run the seeded search for ID.
# Exit 0: held on everything explored.  1 + VIOLATION line: broken.  2: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
bash sim/build.sh >&2 || { echo "error: the simulator does not build from /repo" >&2; exit 2; }
exec ./sim/target/release/sim check "$@"
