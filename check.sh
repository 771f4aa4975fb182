#!/bin/bash
# check.sh <property>: builds the harness against /repo's working tree and runs
# the property's check. Exit 0 held, 1 violated, anything else no verdict.
set -u
cd "$(dirname "$0")"
. ./build-env.sh
case $1 in
C28) build target-t --features targets || exit 2 ;;
*) build target || exit 2 ;;
esac
exec "$CARGO_TARGET_DIR/release/kv" check "$1"
