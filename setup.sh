#!/bin/sh
# builds the extractor and the replay harness (checks do it themselves when it is missing)
cd "$(dirname "$0")" || exit 1
exec python3 driver/check.py --setup
