#!/bin/bash
# prof.sh BIN HARNESS [seconds] [jobs]: where a harness spends its time (development)
cd "$(dirname "$0")/.." && mkdir -p /tmp/prof
ll=$(ls -t build/sym/target/release/deps/$1-*.ll | head -1)
SYMX_PROF=1 engine/target/release/symx --ll $ll --fn $2 --dir /tmp/prof --jobs ${4:-8} --time ${3:-30} 2>&1
