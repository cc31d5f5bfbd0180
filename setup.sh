#!/bin/bash
# Nothing to build: the checks import /repo/simplegrid as it is.  Verify they can.
cd "$(dirname "$0")" && mkdir -p evidence replays && ./check.sh selftest
