#!/bin/bash
# Reproduces a reported violation exactly: replay.sh replays/FILE
ROOT=$(cd "$(dirname "$0")" && pwd)
V=$(sed -n 's/^variant //p' "$1" | head -1)
B=$("$ROOT/build.sh" "${V:-default}") || exit 2
exec "$B" replay "$1"
