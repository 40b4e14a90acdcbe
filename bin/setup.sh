#!/bin/bash
# Nothing is prebuilt: every check builds /repo's working tree itself. This only checks the tools.
set -e
cargo kani --version
python3 -c 'import json; json.load(open("known_findings.json"))'
mkdir -p evidence
