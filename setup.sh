#!/bin/bash
# Nothing is kept between runs: every check builds its own harness. Only make sure that the tools are there.
set -e
cd "$(dirname "$0")"
clang++ --version >/dev/null
python3 -c 'import json, hashlib'
mkdir -p build evidence replays
