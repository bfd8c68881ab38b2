#!/bin/bash
# nothing to build: the engine is Python, contracts are compiled by each check
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence/replay
python3-vt -c "import z3; import dv.engine, dv.run"
clang++ --version | head -1; opt --version | head -2; cvc5 --version | head -1; g++ --version | head -1
