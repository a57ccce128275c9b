#!/bin/bash
# Builds the facts driver and the facts of /repo's current tree (offline).
set -e
cd "$(dirname "$0")"
python3 -c "from sa import facts; facts.load()"
