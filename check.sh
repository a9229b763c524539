#!/bin/bash
# check.sh <property>: run the deductive check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m tdyver.run "$1"
