#!/bin/bash
# Nothing to install: checks build what they need from /repo in scratch directories.
set -e
cd "$(dirname "$0")"
command -v g++ java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence replays
echo ok
