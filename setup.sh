#!/bin/bash
# nothing has to be built ahead: every check rebuilds what it needs from /repo's working tree
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replays
python3 -B -c "import sys; sys.path.insert(0,'py'); import engine, numpy, scipy, hypothesis; print('python machinery ok', hypothesis.__version__)"
g++ --version | head -1
