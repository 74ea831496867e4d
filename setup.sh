#!/bin/bash
# Builds the recording harness and the executables of the repository.
cd "$(dirname "$0")" || exit 2
exec python3 -c "
import sys; sys.path.insert(0, 'lib')
import common
common.build_harness(); common.build_bins()
"
