#!/bin/bash
# Nothing is built: the checks import /repo's sources into Jython directly.
# This only makes sure that what they need is there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p evidence replays
python3-vt -c 'import hypothesis, sys; print("hypothesis", hypothesis.__version__)'
test -f /usr/share/java/jython.jar
test -d /opt/jy/lib
