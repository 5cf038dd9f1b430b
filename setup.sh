#!/bin/bash
# Builds the harness (the checks rebuild it from /repo's current tree anyway).
set -e
cd "$(dirname "$0")"
. ./build-env.sh
cd harness && cargo build --offline --quiet
