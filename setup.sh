#!/bin/bash
# self-check of the tools the verifier needs; nothing is built or installed
set -e
cd "$(dirname "$0")"
command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
python3-vt -c "import z3"
mkdir -p evidence replays
python3-vt - <<'P'
import sys; sys.path.insert(0,'engine')
import driver,check,registry
print('verifier ok:',len(registry.PROPS),'properties')
P
