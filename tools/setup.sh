#!/bin/bash
# Nothing is compiled: make sure that the program and the simulator import and that a simulated run repeats exactly.
cd "$(dirname "$(readlink -f "$0")")/.." || exit 1
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json"))' || exit 1
exec ./check --selftest C02 C13
