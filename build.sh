#!/bin/bash
# Builds the conformance harness against /repo's current working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/target"
cd "$here/harness"
exec cargo build --offline "$@"
