#!/bin/bash
# Nothing to build: the checks compile /repo's sources themselves. Verify the tools are there.
set -e
for t in goto-cc goto-instrument cbmc gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cbmc --version
