#!/bin/bash
# Builds the engine stand-in and warms the Go build cache for every check. Checks rebuild what they need anyway.
cd "$(dirname "$0")" || exit 1
exec python3 ./check.py --build
