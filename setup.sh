#!/bin/bash
# Builds the harness once, so that the checks only rebuild what changed.
set -u
cd "$(dirname "$0")"
. ./build-env.sh
build target && build target-t --features targets
