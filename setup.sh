#!/bin/bash
# Builds the libraries of the unchanged tree once (checks rebuild what changed).
cd "$(dirname "$0")" || exit 1
mkdir -p build
python3-vt harness/build.py
