#!/bin/bash
# Every check builds what it needs from /repo's working tree into a scratch directory; this only
# verifies that the tools are there.
set -e
for t in python3 gcc clang as; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 - <<'P'
import json
json.load(open("MANIFEST.json")); json.load(open("known_findings.json"))
P
echo setup ok
