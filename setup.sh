#!/bin/bash
# builds the MIR dumper, the dump of the current tree and the replay harness
cd "$(dirname "$0")" && exec python3-vt -c "
import sys; sys.argv=['check.py']; sys.path.insert(0,'.')
import check; b=check.build(); print(b); sys.exit(0 if b['replay'] else 2)"
