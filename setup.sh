#!/bin/bash
# Builds the MIR exporter and type-checks the dependencies once; every check does the same when needed.
cd "$(dirname "$0")" && exec python3 analyzer/build.py
