#!/bin/sh
# Checks that what the checks need is there. Every check builds what it needs from /repo's working tree.
set -e
cd "$(dirname "$0")"
for t in java g++ python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
python3 -c "import json; [json.loads(l) for l in open('properties.jsonl')]; json.load(open('MANIFEST.json'))"
mkdir -p build evidence out
echo "ready"
