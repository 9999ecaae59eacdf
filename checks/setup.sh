#!/bin/bash
# Builds the engine, the harness as LLVM IR, and the native replay.
cd "$(dirname "$0")/.." || exit 2
exec python3 -c '
import sys; sys.path.insert(0, "checks")
import os, run
os.makedirs(run.TARGET, exist_ok=True)
run.engine(); run.build()
'
