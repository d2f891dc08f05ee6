#!/bin/bash
# check.sh <property> : decides one property on /repo's current tree (tier and seed from the environment)
cd "$(dirname "$0")" || exit 2
exec python3-vt engine/main.py "$@"
