#!/bin/sh
# Nothing has to be built ahead: every check builds what it needs from /repo. This only tells early when a tool is missing.
set -e
java -version >/dev/null 2>&1
test -x /opt/venv/bin/python
g++ --version >/dev/null
echo ok
