#!/bin/bash
# Builds the harness and its dependencies once.
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
. ./build.sh || exit 2
echo "built $BIN"
