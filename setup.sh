#!/bin/bash
# Builds every harness from /repo's working tree, once.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_target $(awk '{ print $2 }' harness/targets.txt | sort -u)
