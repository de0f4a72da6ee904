#!/bin/sh
# Nothing is cached between runs: each check builds what it needs from /repo.
# This only verifies that the tools the checks need are present.
set -e
cd "$(dirname "$0")/.."
gcc --version | head -1
ld --version | head -1
objcopy --version | head -1
python3 --version
mkdir -p evidence
