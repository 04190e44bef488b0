#!/bin/bash
# builds every simulator binary from /repo's working tree; the checks rebuild what changed
cd "$(dirname "$0")" && python3 tools/build.py
