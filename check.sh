#!/bin/bash
# check.sh PROPERTY
cd "$(dirname "$0")" && exec python3 sv/check.py "$@"
