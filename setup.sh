#!/bin/bash
# Builds the MIR dumper, and warms the dependency builds of probes and witnesses
set -e
cd "$(dirname "$0")"
python3 sv/build.py
python3 -c "
import sys
sys.path.insert(0, 'sv')
import rules
rules.library()
"
