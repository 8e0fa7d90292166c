#!/bin/bash
# Builds the simulator from the committed files, offline.
cd "$(dirname "$0")" || exit 2
exec bash sim/build.sh
