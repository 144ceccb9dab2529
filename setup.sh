#!/bin/bash
# Builds both variants of the simulator.
ROOT=$(cd "$(dirname "$0")" && pwd)
"$ROOT/build.sh" default && "$ROOT/build.sh" pre-rfc8301
