#!/bin/bash
# Builds the MIR driver and warms the dependency cache.
cd "$(dirname "$0")" && exec python3 -B -c 'from qsa import mir; mir.load()'
