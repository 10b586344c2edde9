#!/bin/bash
# builds the conformance harness (the checks rebuild it from /repo's tree anyway)
cd "$(dirname "$0")/.." || exit 1
exec python3 bin/check.py --build-only
