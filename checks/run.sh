#!/bin/bash
# Usage: run.sh <property> [--thorough]
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
exec python3 -B "checks/$(echo "$id" | tr A-Z a-z).py" "$@"
