#!/bin/bash
# check.sh <PROPERTY>: decides one property from /repo's current source
cd "$(dirname "$0")" && exec python3 analysis/run.py "$1"
