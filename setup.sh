#!/bin/bash
# Prepares everything the checks need: an offline crate directory and the first builds.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
python3 lib/vendor.py /opt/vp/ws/vendor build/vendor
python3 lib/check.py --setup
