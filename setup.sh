#!/bin/bash
# Builds the simulator and the instrumented binary once; every check rebuilds both from /repo's working tree.
cd "$(dirname "$0")" && exec bash build.sh
