#!/bin/bash
# Builds the fact driver and warms the dependency build the checks share.
set -e
cd "$(dirname "$0")"
python3 -m obs.build >/dev/null
