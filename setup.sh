#!/bin/bash
# Builds what the checks share (llrl0, llrl1, harnesses) from /repo's current tree; each check rebuilds on its own too.
cd "$(dirname "$0")" || exit 1
exec python3 setup.py
