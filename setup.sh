#!/bin/bash
# Builds the simulators once, so that the Go build cache is warm.
cd "$(dirname "$0")" || exit 2
if [ -f tools/overlay.sh ]; then
	tools/build.sh lib race cli
else
	tools/build.sh lib race
fi
