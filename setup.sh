#!/bin/bash
# builds the syntax dumper and the replay harness (offline); the checks rebuild them when stale
set -e
cd "$(dirname "$0")/vc"
python3 -c "
import rsyn
for c in ('astdump','replay'):
    ok, log = rsyn.cargo_build(c)
    print(log[-2000:])
    assert ok, c
"
python3 -c "
import eft_units
eft_units.library()
"
